"""Per property: the engines that decide it, the rule for counting cases, and assumptions."""

REL = {"engine": "rt", "profile": "release", "label": "release"}
DEV = {"engine": "rt", "profile": "dev", "label": "checked"}
PLAIN = {"engine": "rt", "profile": "plain", "label": "unoptimised"}
CPUS = ["avx2", "avx-no-avx2", "avx2-bit-without-avx", "sse2", "no-leaf-7", "none", "no-feature-leaf", "avx2-no-other"]

PG = {"engine": "pg", "label": "programs"}
PG_DECL = {"engine": "pg", "label": "programs", "decl_macro": True}

PG_NOTE = ("Every program is generated by proptest from (seed, stream, index), written out, compiled with rustc against "
           "laby as built from /repo, and run; an evaluation is one program run on one set of values, a distinct "
           "non-trivial case one such program. ")
PG_BASE = ["the reference interpreter of templates in the harness is right",
           "rustc, the standard library and the test machine behave as documented",
           "programs are compiled with one compiler version (the installed stable one), without optimisation"]

RT_NOTE = ("Every case is generated by proptest from (seed, stream, index); the parts are the same cases run on "
           "builds without and with debug assertions and overflow checks of the code under test. ")

BASE = ["the reference functions written in the harness (escaping, layout of the expected output) are right",
        "rustc, the standard library and the test machine behave as documented"]

INFO = {
    "C01": {
        "engines": [REL, DEV],
        "rule": RT_NOTE + "A case is one call of one of eight escaping entry points on a text placed against "
                "unmapped memory or at an offset, into a buffer with some contents and room (grid and block cases do "
                "hundreds of calls). Non-trivial: the text has a special character, and from 16 bytes on also an ordinary one.",
        "assumptions": BASE,
    },
    "C02": {
        "engines": [dict(REL, label="processes")]
        + [dict(REL, label="release-" + c, cpu=c) for c in CPUS]
        + [dict(DEV, label="checked-" + c, cpu=c) for c in ("avx-no-avx2", "sse2", "none")],
        "rule": RT_NOTE + "A case is either a fresh process with substituted CPUID answers escaping texts under "
                "single-stepping or from several threads, or one escaping call (as in C01) in a process with the named "
                "CPUID answers. Non-trivial: a text of 16 bytes or more takes part (first use), or as in C01.",
        "assumptions": BASE + [
            "feature detection asks CPUID through the raw-cpuid crate (which the harness substitutes); a detection by "
            "other means is noticed and then only the output is judged",
            "SSE2 instructions cannot be told apart on x86-64, where the compiler uses them everywhere",
            "an operating system that hides AVX state (XCR0) while CPUID reports AVX2 is not simulated"],
    },
    "C03": {
        "engines": [REL, DEV],
        "rule": RT_NOTE + "Each case runs with an allocator that puts every block directly before an inaccessible "
                "page, fills it, revokes freed pages, and checks layouts and leaks. Non-trivial: every case (each "
                "renders or appends at a chosen distance from the end of a block).",
        "assumptions": BASE + ["reads inside a block but beyond its initialised part are seen only through their effect on the output"],
    },
    "C04": {
        "engines": [REL, DEV],
        "rule": RT_NOTE + "A case is a history of operations over four buffers, run against String. Non-trivial: at "
                "least three operations, one of which appends.",
        "assumptions": BASE,
    },
    "C05": {
        "engines": [REL, DEV],
        "rule": RT_NOTE + "A case is a history with reservations, each checked and then filled. Non-trivial: at least "
                "one reservation was checked or one impossible request made.",
        "assumptions": BASE + ["requests that fit in isize::MAX but that the machine cannot satisfy end in the allocation error handler and are not generated"],
    },
    "C06": {
        "engines": [REL, DEV],
        "rule": RT_NOTE + "A case renders one integer of one of 24 types (or unit, boolean) into a buffer with some "
                "contents and room; block cases render 1024 values. Every case is non-trivial.",
        "assumptions": BASE + ["the decimal formatting of the standard library is right"],
    },
    "C07": {
        "engines": [REL, DEV],
        "rule": RT_NOTE + "A case renders one float into a buffer with some contents and room and judges the text. Every case is non-trivial.",
        "assumptions": BASE + ["float parsing and {:e} of the standard library are right", "the ryu crate is the reference for the layout"],
    },
    "C08": {
        "engines": [REL, DEV],
        "rule": RT_NOTE + "A case renders one (nested) wrapper value. Every case is non-trivial.",
        "assumptions": BASE + ["displayable values whose formatting reports an error are not generated"],
    },
    "C09": {
        "engines": [REL, DEV],
        "rule": RT_NOTE + "A case is a script of an iterator's answers, rendered through one of the wrapper forms with "
                "all calls logged. Non-trivial: at least two items are visited.",
        "assumptions": BASE,
    },
    "C10": {
        "engines": [PG],
        "rule": PG_NOTE + "A program renders a generated tree of markup (elements, attributes, literals, expressions, nodes in wrappers, "
                "iterators, branches and components). Non-trivial: at least two elements.",
        "assumptions": PG_BASE,
    },
    "C11": {
        "engines": [PG],
        "rule": PG_NOTE + "A program renders literals written in the template and the same literals bound to variables first. Every program is non-trivial.",
        "assumptions": PG_BASE,
    },
    "C12": {
        "engines": [PG],
        "rule": PG_NOTE + "A program renders two forms of one template (nested and composed) and both are compared with the reference. "
                "Non-trivial: the composed form differs from the nested one.",
        "assumptions": PG_BASE,
    },
    "C13": {
        "engines": [PG],
        "rule": PG_NOTE + "A program renders a template without raw text on hostile texts; the output is parsed by an HTML tokenizer "
                "written for the purpose and compared with the structure. Non-trivial: the expected output has markup and escaped characters.",
        "assumptions": PG_BASE + ["the tokenizer in the harness reads HTML as a browser does for the elements generated (no script, style and other raw text elements)"],
    },
    "C14": {
        "engines": [PG],
        "rule": PG_NOTE + "A program logs every evaluation, rendering and drop of the expressions of a template, which is rendered or discarded. "
                "Non-trivial: at least two logged expressions.",
        "assumptions": PG_BASE + ["the order of evaluations within one template is not judged"],
    },
    "C15": {
        "engines": [PG],
        "rule": PG_NOTE + "A program renders elements with boolean attributes under many conditions. Non-trivial: at least one boolean attribute.",
        "assumptions": PG_BASE,
    },
    "C16": {
        "engines": [PG],
        "rule": PG_NOTE + "A program declares components of a generated signature and compares calls through the macro with direct calls. "
                "Non-trivial: two parameters or more and an argument given, or a chain of components.",
        "assumptions": PG_BASE,
    },
    "C17": {
        "engines": [PG],
        "rule": "Every program is generated by proptest from (seed, stream, index): a template or component call with one misuse in it, "
                "and the same without. An evaluation is one of them given to rustc: the misused one has to be rejected, the other to compile. Every case is non-trivial.",
        "assumptions": PG_BASE[1:] + ["only rejection is judged, not the wording or place of the error"],
    },
    "C18": {
        "engines": [PG],
        "rule": PG_NOTE + "A program renders wrapped branches and the same as ordinary branches. Non-trivial: at least two branches.",
        "assumptions": PG_BASE,
    },
    "C19": {
        "engines": [PG],
        "rule": PG_NOTE + "A program renders nested fragments and class lists, or several values at once. Non-trivial: at least two values joined.",
        "assumptions": PG_BASE,
    },
    "C20": {
        "engines": [REL, PG],
        "rule": "Part release: every case is generated by proptest from (seed, stream, index) and is one value rendered with a counting "
                "allocator; every case is non-trivial. Part programs: " + PG_NOTE + "A program counts the allocations while a generated template is built and rendered. Non-trivial: at least two elements.",
        "assumptions": BASE + ["enough free capacity is taken as six bytes for each byte of output and 4096 more"],
    },
    "C21": {
        "engines": [REL, DEV, PG],
        "rule": RT_NOTE + "In the programs part: " + PG_NOTE + "A case renders a sequence of values or templates into one buffer and apart, or concurrently, one thread "
                "being stopped at a chosen instruction. Non-trivial: at least two values.",
        "assumptions": BASE + ["with several threads, one preemption (at any instruction) and free-running races are explored, not all schedules"],
    },
    "C22": {
        "engines": [PG],
        "rule": PG_NOTE + "A program writes a template in a generated place (edition, standard library or not, imports, kind of function, names "
                "of the caller around). Non-trivial: the place differs from a plain function with a glob import in edition 2021.",
        "assumptions": PG_BASE + ["a failure counts only if the same template works in the simplest place (elsewhere it is another property's)"],
    },
    "C23": {
        "engines": [PG_DECL],
        "rule": PG_NOTE + "A program calls components with the decl_macro feature of laby on, and, where that is the claim, without. "
                "Non-trivial: two parameters or more and an argument given, or a chain of components.",
        "assumptions": PG_BASE + ["the stable compiler is told to accept the nightly feature (RUSTC_BOOTSTRAP)"],
    },
    "C24": {
        "engines": [REL, DEV],
        "rule": RT_NOTE + "A case appends pieces by generated operations until a generated total, counting allocations and watching the "
                "capacity. Non-trivial: the buffer grew at least three times.",
        "assumptions": BASE + ["logarithmic is taken as at most 8 + 2 log2(bytes) allocations, a constant factor as 16 (and 4096 bytes)"],
    },
    "C25": {
        "engines": [PG],
        "rule": "Every case is a macro call or declaration generated by proptest from (seed, stream, index) whose tokens are edited at random, or random tokens; "
                "it is compiled with rustc against laby as built from /repo. Every case is non-trivial.",
        "assumptions": ["what neither version 1 nor version 2 of syn reads as a list of expressions is no such list",
                        "tokens of the languages of 2021 (C string literals are unknown to the parser laby depends on)",
                        "an input on which the compiler itself reports an internal error is not judged"],
    },
    "C26": {
        "engines": [PG],
        "rule": "Every case is a template, component or misuse generated by proptest from (seed, stream, index), expanded or rejected by two runs of rustc, "
                "whose answers are compared (ten runs for a case alone). Every case is non-trivial.",
        "assumptions": ["rustc itself answers the same in every run", "the position of a macro call in the crate is the same in both runs"],
    },
    "C27": {
        "engines": [PG],
        "rule": PG_NOTE + "A program makes a template of values whose sizes are known and measures it. Non-trivial: at least two elements.",
        "assumptions": PG_BASE[1:],
    },
    "C28": {
        "engines": [PG],
        "rule": "Every case is a set of items, branches or parameters, or a pattern of nesting, generated by proptest from (seed, stream, index); it is written 3, 6 and 12 times, "
                "24, 48 and 96 times, and 150, 300 and 600 times, and expanded by rustc. The last increase may be at most 2.5 times (of the small sizes three times) the one before; in proportion it is twice. Every case is non-trivial.",
        "assumptions": ["code is measured in characters other than space, as rustc prints it after expansion",
                        "a template that does not compile at all is judged by other properties"],
    },
    "C29": {
        "engines": [REL, DEV, PG],
        "rule": RT_NOTE + PG_NOTE + "A case is a value, an iterator or a template with a fault at one of the places in the caller's code that rendering (or building) comes by: "
                "a panic, or an error of formatting. Non-trivial: there are several such places.",
        "assumptions": BASE + ["panics unwind; with panic=abort there is nothing to leave sound"],
    },
    "C30": {
        "engines": [PG],
        "rule": PG_NOTE + "A case is a template over several lines with expressions that record where they are, or with one place in it that does not compile, by an unknown name, a type error or a misuse. "
                "Non-trivial: it has such a place that is evaluated, or is wrong.",
        "assumptions": PG_BASE + ["an expression in parentheses begins at its parenthesis, as rustc has it"],
    },
    "C31": {
        "engines": [REL, PLAIN],
        "rule": RT_NOTE + "A case is a kind of work (a text, pieces, items, numbers, formatting, a buffer in use) that is done at sizes each four times the one before, "
                "from 2048 bytes or pieces up to 8 MB or half a million pieces, in a process and on a thread of its own with 160 KB of stack. All count as non-trivial.",
        "assumptions": BASE + ["the thread's processor time is that of the work, but for disturbances that a measurement repeated three times, each the least of five runs, leaves out"],
    },
    "C32": {
        "engines": [PG],
        "rule": "Every case is a module of a template with what it needs, in one of nine places (function, closure, method, generic function, trait, async function, ..), and up to two components "
                "with calls, generated by proptest from (seed, stream, index), which rustc checks with the warnings on. Non-trivial: at least two elements, branches or components.",
        "assumptions": ["what the harness writes itself is without warnings (names and patterns of its own excepted)"],
    },
    "C33": {
        "engines": [{"engine": "rt", "profile": "release", "label": "architectures", "guests": True}],
        "rule": "Every case is a history of renderings and operations of a buffer, generated by proptest from (seed, stream, index) and done by a program that Miri interprets for one of eight "
                "architectures, with debug assertions and overflow checks; expected is the text of the model. Non-trivial: a text of 16 bytes or more.",
        "assumptions": BASE + ["Miri interprets these architectures right; its model of aliasing is not applied"],
    },
    "C34": {
        "engines": [REL, DEV],
        "rule": RT_NOTE + "A case is a history of buffer operations or a value to render, and one of the allocations made on the way, which is refused in a forked process. "
                "Non-trivial: memory is allocated at all.",
        "assumptions": BASE + ["the handler of failed allocations is that of the standard library, which says the size and aborts"],
    },
}
