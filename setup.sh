#!/bin/bash
# Builds the fact-dumping compiler driver and the facts of the current tree (both under /verif).
cd "$(dirname "$0")" && exec python3 engine/build.py
