"""gbsv: a contract verifier for the C++ of ssg-aero/gbs, working on the LLVM IR clang emits for it."""
