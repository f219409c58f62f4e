#!/bin/bash
# both builds of the simulator
cd "$(dirname "$0")" && bash build.sh && SIMIMG_BLOCKS=1 bash build.sh
