HOOKS = {"guard": "--cfg hongdown_verif (RUSTFLAGS)",
         "enable": "tools/vf.py builds the harness crate with RUSTFLAGS='--cfg hongdown_verif' and the crate's feature wasm",
         "source_commits": ["ae7c195"]}
