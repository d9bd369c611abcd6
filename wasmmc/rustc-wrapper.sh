#!/bin/sh
# rustc for wasmmc: hongdown is compiled natively, but with the code for WebAssembly.
case " $* " in
    *" --crate-name hongdown "*) exec "$@" --cfg 'target_arch="wasm32"' -A explicit_builtin_cfgs_in_flags ;;
    *) exec "$@" ;;
esac
