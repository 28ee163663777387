C(gcc_default) C(gcc_O0) C(gcc_le) C(gcc_portable) C(gcc_portable_le_O3) C(clang_default) C(clang_portable_le) C(gcc_portable_trap) C(clang_portable_trap) C(gcc_be_portable)
