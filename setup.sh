#!/bin/bash
# nothing to build for the Python checks
exit 0
