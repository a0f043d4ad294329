"""statements that do nothing, in every function of a file"""
import re
from mutlist import same
from samelist10 import text

NOOPS = ["let _ = 0u8;", "std::hint::black_box(());", "let _size = std::mem::size_of::<u64>();", "if false {\n unreachable!();\n }",
         "debug_assert!(true);", "let _unused: Option<u64> = None;", "drop(());", "let _v: Vec<u8> = Vec::new();",
         "(0..0).for_each(|_: u64| ());", "let _s = String::from(\"noop\");", "let _ = std::convert::identity(1u8);",
         "log::trace!(\"enter {}\", 1);", "let _started = std::time::Instant::now();", "{\n let mut _n = 0u64;\n _n += 1;\n }",
         "let _d: u64 = Default::default();", "let () = ();", "for _ in 0..0 {\n continue;\n }", "let _c = |x: u64| x + 1;",
         "match () {\n () => {}\n }", "let _t = (1u8, 2u8).0;", "const _NOOP: u8 = 0;", "let mut _acc = 0u64;\n for i in 0..3u64 {\n _acc += i;\n }",
         "let _b = Box::new(1u8);", "let _m = 1u64.max(2).min(3);", "assert!(1 < 2);", "let _e = \"\".is_empty();", "use std::mem as _;",
         "loop {\n break;\n }", "let _r = &0u8;", "let _arr = [0u8; 4];"]
FILES = ["src/state/process.rs", "src/state/collection.rs", "src/state/parallel.rs", "src/smr/mod.rs", "src/smr/state_machine.rs", "src/smr/smr_types.rs",
         "src/timer.rs", "src/overlord.rs", "src/types.rs", "src/codec.rs", "src/utils/auth_manage.rs", "src/utils/rand_proposer.rs",
         "src/utils/timer_config.rs", "src/wal/wal_type.rs", "src/serde_hex.rs", "src/serde_multi_hex.rs"]
for f in FILES:
    a = text(f)
    i = a.find("#[cfg(test)]\nmod")
    head, tail = (a, "") if i < 0 else (a[:i], a[i:])
    for k in (0, 7, 13, 22):
        n = [k]

        def put(m):
            n[0] += 1
            return m.group(0) + "\n" + NOOPS[n[0] % len(NOOPS)]
        b = re.sub(r"\n[ \t]*(?:pub(?:\([a-z]+\))? )?(?:async )?fn \w+[^;{]*?\{(?=\n)", put, head)
        if b != head:
            same(f"n_noop_{f.split('/')[-1][:-3]}_{k}", (f, a, b + tail))
