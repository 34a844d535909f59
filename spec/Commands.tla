------------------------------ MODULE Commands ------------------------------
(***************************************************************************)
(* The commands that compile and link.  A case has options of the builder  *)
(* (base), options of each call, and a graph of libraries; it is seen by   *)
(* the arguments of all commands.  Options are sequences of strings.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cases == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, done

V(clause, n, what) == [ clause |-> clause, n |-> n, what |-> what ]

Count(seq, x) == Cardinality({ k \in 1..Len(seq) : seq[k] = x })
Pos(seq, x) == CHOOSE k \in 1..Len(seq) : seq[k] = x /\ \A j \in 1..(k - 1) : seq[j] # x
Has(seq, x) == \E k \in 1..Len(seq) : seq[k] = x
RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>> ELSE LET u == Uniq(Front(s)) IN IF Has(u, Last(s)) THEN u ELSE Append(u, Last(s))
(* s is a subsequence of t *)
RECURSIVE Within(_, _)
Within(s, t) ==
  IF s = <<>> THEN TRUE
  ELSE IF t = <<>> THEN FALSE
  ELSE IF Head(s) = Head(t) THEN Within(Tail(s), Tail(t)) ELSE Within(s, Tail(t))
Pre(p, s) == [ k \in 1..Len(s) |-> p \o s[k] ]
NoEmpty(s) == SelectSeq(s, LAMBDA x : x # "")
SetSeq(S) == SetToSeq(S)

(* --------------------------------------------------------------- libraries *)

RECURSIVE Closure(_, _, _)
Closure(nodes, seen, todo) ==
  IF todo = {} THEN seen
  ELSE LET n == CHOOSE n \in todo : TRUE IN
       Closure(nodes, seen \cup {n}, (todo \cup ToSet(nodes[n].deps)) \ (seen \cup {n}))

(* ---------------------------------------------------------------- commands *)

Yes(b, c) == c = "yes" \/ (c = "none" /\ b = "yes")
Or(c, b) == IF c # "" THEN c ELSE b

(* The sequences and sets of arguments of a command of the compiler:        *)
(* x: [exe, pre, flags, srcs, dst, base, opts, dirs, libs, link].           *)
Command(c, x) ==
  LET b == x.base
      o == x.opts
      all == Closure(c.nodes, {}, x.libs)
      rich == { n \in all : c.nodes[n].rich }
      flags == Uniq(b.flags \o x.flags)
      paths == (ToSet(b.libpaths) \cup ToSet(o.libpaths) \cup UNION { ToSet(c.nodes[n].libpaths) : n \in rich } \cup { c.nodes[n].dir : n \in all }) \ {""}
      externals == ToSet(b.external_libs) \cup ToSet(o.external_libs) \cup UNION { ToSet(c.nodes[n].ext) : n \in rich }
      compiling == { "-I" \o i : i \in (ToSet(b.includes) \cup ToSet(o.includes) \cup x.dirs) \ {""} }
                   \cup { "-D" \o i : i \in ToSet(b.macros) \cup ToSet(o.macros) } \cup { "-W" \o i : i \in ToSet(b.warnings) \cup ToSet(o.warnings) }
      must ==
        x.pre \o (IF Yes(b.debug, o.debug) THEN b.debug_flags ELSE <<>>) \o (IF Yes(b.profile, o.profile) THEN b.profile_flags ELSE <<>>)
        \o (IF Yes(b.optimize, o.optimize) THEN b.optimize_flags ELSE <<>>)
        \o (IF Or(o.arch, b.arch) # "" THEN <<"-arch", Or(o.arch, b.arch)>> ELSE <<>>)
        \o (IF x.onlylink THEN <<>> ELSE SetSeq(compiling))
        \o SetSeq({ "-m" \o i : i \in (ToSet(b.machine_flags) \cup ToSet(o.machine_flags)) \ {""} })
        \o (IF x.dst # "" THEN <<"-o", x.dst>> ELSE <<>>) \o flags \o x.srcs
        \o (IF x.link THEN SetSeq({ "-L" \o p : p \in paths }) \o SetSeq({ "-l" \o c.nodes[n].name : n \in all }) \o SetSeq({ "-l" \o l : l \in externals })
                           \o b.ldlibs \o o.ldlibs
            ELSE <<>>)
  IN [ must |-> must, may |-> (IF x.link THEN {} ELSE { "-L" \o p : p \in paths }) \cup (IF x.onlylink THEN compiling ELSE {}), flags |-> flags, all |-> all, externals |-> externals ]

JudgeCommand(c, x, cmd, n) ==
  LET w == Command(c, x)
      args == Tail(cmd)
      seen == ToSet(args)
      lib(k) == "-l" \o c.nodes[k].name
      lost == { a \in ToSet(w.must) : Count(args, a) < Count(w.must, a) }
      more == { a \in seen : Count(args, a) > Count(w.must, a) /\ ~(a \in w.may /\ Count(args, a) = 1) }
      order ==
        (IF Within(x.pre, args) /\ Within(w.flags, args) /\ Within(x.srcs, args) THEN {} ELSE { V("order", n, "flags and sources") })
        \cup (IF x.dst = "" \/ args[Pos(args, "-o") + 1] = x.dst THEN {} ELSE { V("order", n, "-o") })
        \cup (IF Or(x.opts.arch, x.base.arch) = "" \/ args[Pos(args, "-arch") + 1] = Or(x.opts.arch, x.base.arch) THEN {} ELSE { V("order", n, "-arch") })
        \cup (IF ~x.link THEN {}
              ELSE { V("order", n, lib(k)) : k \in { k \in w.all : \/ \E s \in ToSet(x.srcs) : Pos(args, s) > Pos(args, lib(k))
                                                                     \/ (c.nodes[k].rich /\ \E d \in ToSet(c.nodes[k].deps) : Pos(args, lib(d)) < Pos(args, lib(k)))
                                                                     \/ \E e \in w.externals : Pos(args, "-l" \o e) < Pos(args, lib(k)) }}
                   \cup { V("order", n, "-l" \o e) : e \in { e \in w.externals : \E s \in ToSet(x.srcs) : Pos(args, s) > Pos(args, "-l" \o e) } }
                   \cup (IF Within(x.srcs \o x.base.ldlibs \o x.opts.ldlibs, args) THEN {} ELSE { V("order", n, "ldlibs") }))
  IN IF cmd = <<>> \/ cmd[1] # x.exe THEN { V("program", n, IF cmd = <<>> THEN "" ELSE cmd[1]) }
     ELSE { V("lost", n, a) : a \in lost } \cup { V("extra", n, a) : a \in more } \cup (IF lost = {} THEN order ELSE {})

(* ------------------------------------------------------------------ direct *)

Dirs(call, srcdirs) == IF call.opts.include_source_dirs = "no" THEN {} ELSE ToSet(srcdirs)

Direct(c, n) ==
  LET call == c.calls[n]
      got == c.got[n]
      pre == c.base.pre_flags \o call.pre
      x == [ exe |-> c.exe, pre |-> pre, flags |-> call.opts.flags, srcs |-> call.srcs, dst |-> call.dst, base |-> c.base,
             opts |-> call.opts, dirs |-> Dirs(call, call.srcdirs), libs |-> ToSet(c.base.libs) \cup ToSet(call.opts.libs), link |-> ~Has(pre \o c.base.flags \o call.opts.flags, "-c"), onlylink |-> FALSE ]
  IN IF got.error # "" THEN { V("failed", n, got.error) }
     ELSE IF Len(got.cmds) # 1 THEN { V("commands", n, ToString(Len(got.cmds))) }
     ELSE JudgeCommand(c, x, got.cmds[1], n)

(* ----------------------------------------------------------------- builders *)

Static(c) == c.linked = "static"
CompilePre(c) == <<"-c">> \o c.build.flags \o (IF c.build.compile_flags # <<>> THEN c.build.compile_flags ELSE IF Static(c) THEN <<>> ELSE <<"-fPIC">>)
LibPre(c) == c.build.flags \o c.build.link_flags \o (IF c.build.lib_link_flags # <<>> THEN c.build.lib_link_flags ELSE <<"-fPIC", "-shared">>)
ExePre(c) == c.build.flags \o c.build.link_flags \o c.build.exe_link_flags

(* The names of files, by platform. *)
Is(c, p) == p \in ToSet(c.platform)
Linux(c) == c.platform = <<>>
ObjSuffix(c) ==
  IF c.build.obj_suffix # "" THEN c.build.obj_suffix
  ELSE IF Is(c, "windows") THEN (IF Static(c) THEN "_static.obj" ELSE "_shared.obj") ELSE IF Static(c) THEN ".o" ELSE ".os"
LibPrefix(c) ==
  IF c.build.lib_prefix # "" THEN c.build.lib_prefix
  ELSE IF Static(c) THEN "lib" ELSE IF Is(c, "windows") \/ Is(c, "mingw") \/ Is(c, "cygwin") THEN "" ELSE "lib"
LibSuffix(c) ==
  IF c.build.lib_suffix # "" THEN c.build.lib_suffix
  ELSE IF Static(c) THEN ".a"
  ELSE IF Is(c, "windows") \/ Is(c, "mingw") \/ Is(c, "cygwin") THEN ".dll" ELSE IF Is(c, "darwin") THEN ".dylib" ELSE ".so"
ExeSuffix(c) == IF c.build.exe_suffix # "" THEN c.build.exe_suffix ELSE IF Is(c, "windows") THEN ".exe" ELSE ""

ObjOf(c, call, s) == (IF call.how \in { "build_lib", "build_exe" } THEN "build/obj/" \o call.dst \o "/" ELSE "build/")
                     \o (IF call.how = "compile" /\ call.dst # "" THEN call.dststem ELSE s) \o ObjSuffix(c)
LibOf(c, call) == "build/" \o call.dstdir \o LibPrefix(c) \o call.dstname \o LibSuffix(c)
ExeOf(c, call) == "build/" \o call.dstdir \o call.dstname \o ExeSuffix(c)

Compile(c, call, k) ==
  LET built == call.how \in { "build_lib", "build_exe" }
      o == IF built THEN [ call.opts EXCEPT !.libpaths = <<>>, !.external_libs = <<>>, !.ldlibs = <<>>, !.libs = <<>> ] ELSE call.opts
  IN [ exe |-> c.exe, pre |-> c.base.pre_flags \o CompilePre(c), flags |-> o.flags, srcs |-> <<call.srcs[k]>>, dst |-> ObjOf(c, call, call.stems[k]), base |-> c.base,
       opts |-> o, dirs |-> Dirs(call, <<call.srcdirs[k]>>), libs |-> ToSet(c.base.libs) \cup ToSet(o.libs), link |-> FALSE, onlylink |-> FALSE ]

Objects(c, call) == IF call.how \in { "build_lib", "build_exe" } THEN call.objs \o [ k \in 1..Len(call.srcs) |-> ObjOf(c, call, call.stems[k]) ] ELSE call.srcs
ObjDirs(c, call) ==
  IF call.how \in { "build_lib", "build_exe" } THEN ToSet(call.objdirs) \cup { "build/obj/" \o call.dst \o (IF call.srcdirs[k] = "" THEN "" ELSE "/" \o call.srcdirs[k]) : k \in 1..Len(call.srcs) }
  ELSE ToSet(call.srcdirs)

LinkOpts(call) ==
  IF call.how \in { "build_lib", "build_exe" }
    THEN [ call.opts EXCEPT !.includes = <<>>, !.macros = <<>>, !.warnings = <<>>, !.flags = call.lflags ]
    ELSE call.opts
Link(c, call, exe) ==
  LET o == LinkOpts(call) IN
  [ exe |-> c.exe, pre |-> c.base.pre_flags \o (IF exe THEN ExePre(c) ELSE LibPre(c)), flags |-> o.flags, srcs |-> Objects(c, call),
    dst |-> IF exe THEN ExeOf(c, call) ELSE LibOf(c, call), base |-> c.base, opts |-> [ o EXCEPT !.include_source_dirs = "none" ], dirs |-> ObjDirs(c, call),
    libs |-> ToSet(c.base.libs) \cup ToSet(o.libs), link |-> TRUE, onlylink |-> TRUE ]

(* ar and ranlib *)
Archive(c, call, cmds, n) ==
  LET o == LinkOpts(call)
      want == <<"-rcs">> \o o.flags \o <<LibOf(c, call)>> \o Objects(c, call)
  IN IF Len(cmds) < 1 \/ Len(cmds) > 2 THEN { V("commands", n, ToString(Len(cmds))) }
     ELSE (IF Tail(cmds[1]) # want THEN { V("archive", n, ToString(cmds[1])) } ELSE {})
          \cup (IF Len(cmds) = 2 /\ Tail(cmds[2]) # <<LibOf(c, call)>> THEN { V("archive", n, ToString(cmds[2])) } ELSE {})

IsCompile(c, cmd) == Len(cmd) > 0 /\ cmd[1] = c.exe /\ Has(cmd, "-c")
(* The first ones compile, each one source, in any order. *)
Compiles(c, call, cmds, n) ==
  UNION { LET mine == { j \in 1..Len(cmds) : Has(cmds[j], call.srcs[k]) } IN
          IF Cardinality(mine) # 1 THEN { V("not compiled", n, call.srcs[k]) }
          ELSE JudgeCommand(c, Compile(c, call, k), cmds[CHOOSE j \in mine : TRUE], n)
          : k \in 1..Len(call.srcs) }

Built(c, n) ==
  LET call == c.calls[n]
      got == c.got[n]
      m == Len(call.srcs)
      first == IF call.how \in { "build_lib", "build_exe", "compile" } THEN m ELSE 0
      cmds == got.cmds
      rest == SubSeq(cmds, first + 1, Len(cmds))
      islib == call.how \in { "link_lib", "build_lib" }
      ret == IF call.how = "compile" THEN ObjOf(c, call, call.stems[1]) ELSE IF islib THEN LibOf(c, call) ELSE ExeOf(c, call)
  IN IF got.error # "" THEN { V("failed", n, got.error) }
     ELSE IF Len(cmds) < first + (IF call.how = "compile" THEN 0 ELSE 1) THEN { V("commands", n, ToString(Len(cmds))) }
     ELSE (IF first > 0 THEN Compiles(c, call, SubSeq(cmds, 1, first), n) ELSE {})
          \cup (IF call.how = "compile" THEN (IF rest = <<>> THEN {} ELSE { V("commands", n, ToString(Len(cmds))) })
                ELSE IF islib /\ Static(c) THEN Archive(c, call, rest, n)
                ELSE IF Len(rest) # 1 THEN { V("commands", n, ToString(Len(cmds))) }
                ELSE JudgeCommand(c, Link(c, call, ~islib), rest[1], n))
          \cup (IF got.ret # ret THEN { V("returned", n, got.ret) } ELSE {})
          \cup (IF ~got.kept THEN { V("libraries of the answer", n, got.ret) } ELSE {})

(* ------------------------------------------------------------------- names *)

Features(arch) ==
  CASE arch = "irix" -> { "posix", "irix" }
    [] arch = "irix64" -> { "posix", "irix", "irix64" }
    [] arch \in { "unix", "posix" } -> { "posix" }
    [] arch \in { "linux", "gnu/linux" } -> { "posix", "linux" }
    [] arch = "solaris" -> { "posix", "solaris" }
    [] arch = "sunos" -> { "posix", "solaris", "sunos" }
    [] arch \in { "cygwin", "cygwin_nt-5.1" } -> { "posix", "cygwin", "windows" }
    [] arch = "nocygwin" -> { "posix", "cygwin", "nocygwin", "windows" }
    [] arch \in { "mingw", "mingw32_nt-6.1" } -> { "posix", "mingw", "windows" }
    [] arch \in { "windows", "win32", "windows32" } -> { "windows", "win32" }
    [] arch = "nt" -> { "windows", "win32", "nt" }
    [] arch \in { "win64", "windows64" } -> { "windows", "win64" }
    [] arch \in { "freebsd", "netbsd", "openbsd" } -> { "posix", "bsd", arch }
    [] arch \in { "darwin", "osx" } -> { "posix", "bsd", "darwin", "macosx" }
    [] arch = "iphone" -> { "posix", "bsd", "darwin", "iphone" }
    [] arch \in { "iphone-sim", "iphone-simulator" } -> { "posix", "bsd", "darwin", "iphone", "simulator" }

Names(c) ==
  LET p == ToSet(c.got.set)
      win == "windows" \in p
      dll == win \/ "mingw" \in p \/ "cygwin" \in p
      nolib == win /\ "mingw" \notin p
      want == [ set |-> c.got.set, obj |-> IF win THEN ".obj" ELSE ".o", sobj |-> IF win THEN "_static.obj" ELSE ".o",
                slibp |-> IF nolib THEN "" ELSE "lib", slibs |-> IF nolib THEN ".lib" ELSE ".a",
                dobj |-> IF win THEN "_shared.obj" ELSE ".os", dlibp |-> IF dll THEN "" ELSE "lib",
                dlibs |-> IF dll THEN ".dll" ELSE IF "darwin" \in p THEN ".dylib" ELSE ".so",
                exe |-> IF win THEN ".exe" ELSE "",
                path |-> IF win /\ "cygwin" \notin p THEN "PATH" ELSE IF "darwin" \in p THEN "DYLD_LIBRARY_PATH" ELSE "LD_LIBRARY_PATH" ]
  IN (IF c.got # want THEN { V("names", 1, c.arch) } ELSE {})
     \cup (IF p # Features(c.arch) THEN { V("names", 1, c.arch) } ELSE {})

Judge(c) ==
  IF c.mode = "names" THEN Names(c)
  ELSE UNION { IF c.mode = "direct" THEN Direct(c, n) ELSE Built(c, n) : n \in 1..Len(c.calls) }

Init == ti \in 1..Len(Cases) /\ done = FALSE
Step ==
  /\ ~done /\ done' = TRUE /\ ti' = ti
  /\ LET v == Judge(Cases[ti]) IN
     v # {} => PrintT("RESULT " \o ToJson([ id |-> Cases[ti].id, viol |-> SetToSeq(v) ]))
=============================================================================
