#!/bin/bash
# RUSTC_WRAPPER: instruments the crate under test, and only it, with edge counters for the guided search.
case " $* " in
	*" --crate-name dnssec_prover "*) exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters ;;
	*) exec "$@" ;;
esac
