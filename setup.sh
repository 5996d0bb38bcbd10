#!/bin/bash
# Builds the verifier once, which also warms Go's build cache. Every check builds it again from source.
. /opt/vp/env.sh
cd /verif/gover && go build -o /dev/null . && which z3-new cvc5
