#!/bin/sh
cd "$(dirname "$0")/../lib" && python3 relock.py crc32fast-1.5.0 memmap2-0.9.8 static_assertions-1.1.0 sha2-0.10.9 digest-0.10.7 block-buffer-0.10.4 crypto-common-0.1.6 generic-array-0.14.7 typenum-1.18.0 cpufeatures-0.2.17 version_check-0.9.5 base64ct-1.7.3 flate2-1.1.1 adler2-2.0.1 urlencoding-2.1.3 miniz_oxide-0.8.9 2>&1 | tail -3
