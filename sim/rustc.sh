#!/bin/bash
# rustc for the harness: the crates under test get stdseam for std
rustc=$1; shift
if [ -n "$STDSEAM" ]; then
  case " $* " in *" --crate-name jmt "*|*" --crate-name pmt "*|*" --crate-name serde_hash "*)
    exec "$rustc" "$@" --extern "std=$STDSEAM" --extern "core=$STDSEAM" ;;
  esac
fi
exec "$rustc" "$@"
