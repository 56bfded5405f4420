#!/usr/bin/env python3
"""Writes properties.jsonl. Kept so that the statements are edited in one place."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Package-level functions act on the active implementation, unchanged",
"Every package-level operation of pkger (Parse, Current, Info, Create, MkdirAll, Open, Stat, Walk, Remove, RemoveAll) calls exactly the operation of the same name on the implementation active at that moment, once, with the caller's arguments unchanged, and returns its results unchanged. Dir(d).Open(name) opens d on the active implementation and then name below it. Include returns its argument and has no other effect.",
["inputs","histories"],"every call, for every argument and every sequence of Apply calls before it",
"The root tests call seven of the functions, each with one or two fixed names, and only while nothing was applied: none looks at the arguments the implementation gets.",
["pkger.go"],[("impl() picks the active implementation","pkger.go impl"),("one forwarding function per operation","pkger.go")],["results of package-level functions","calls an applied implementation receives"])

p("C02","Applying an implementation is atomic and loses no earlier layer",
"The active implementation is read and replaced only while the package lock is held (exclusively for a replacement), and the lock is released on every way out, so concurrent Apply calls and operations never race and no applied implementation is lost. Until something is applied the disk implementation is active; afterwards the last applied one is, layered over the ones applied before. Apply never installs an implementation that comes with an error: it panics.",
["schedules","histories"],"all interleavings of Apply and package-level operations; all sequences of Apply",
"No test calls Apply (apply_test.go is empty), and none runs two goroutines against the package-level state.",
["apply.go","pkger.go","pkging/wrap.go"],[("RWMutex gil around current","pkger.go impl, apply.go Apply"),("Wrap(current, pkg) in one critical section","apply.go Apply")],["data races on the package state","the active implementation after Apply"],[("current","the applied implementations, nil before the first Apply","pkger.go"),("gil","guards current","pkger.go")])

p("C03","Layers answer newest first, older ones exactly on error",
"With layered implementations, Parse, Current, Info, Create, Open and Stat are asked of the newest layer first; an older layer is asked, with the same arguments, exactly when the newer one fails, and then its results are returned; without an older layer the newest layer's error is returned. MkdirAll, Walk, Remove and RemoveAll run on the newest layer and then, only if that succeeded, on the older one, with the same arguments, and the first error is returned.",
["inputs","histories"],"every operation, every argument, every combination of layers that succeed or fail",
"Nothing in the test suite builds a layered implementation: pkging/wrap.go is not executed at all.",
["pkging/wrap.go"],[("withPkger forwards to base, then to parent","pkging/wrap.go")],["calls each layer receives","results of the layered implementation"])

p("C04","Disk operations never leave the directory of the package",
"Whatever name is given, with parent elements, back slashes, repeated or missing separators, every file system call of the disk implementation is made on the package's directory or something below it (symbolic links aside).",
["inputs"],"every string given as a name to any operation of the disk implementation or of its files",
"The tests use a dozen well-formed names; none has a parent element or a back slash.",
["pkging/stdos/stdos.go","pkging/stdos/file.go"],[("Parse cleans the name as an absolute one","pkging/stdos/stdos.go Parse"),("filepath.Join(package dir, name) before each os call","pkging/stdos/stdos.go")],["path arguments of os and filepath.Walk calls"])

p("C05","Disk operations act on the file their name denotes",
"For the disk implementation, every operation on a name resolves it the same way: the package part selects the package's own directory, the rest is the place below it, and the operation of the same meaning is done there (Open for reading, Create truncating, MkdirAll with the given permissions, Remove one entry, RemoveAll a tree, Stat following links) with its result reported. A returned handle or walked entry carries the path, package info and file info of that very file.",
["inputs"],"every operation of the disk implementation, every name, own and foreign packages",
"The shared tests use names in the current package only, so a resolution that ignores or mixes up the package part passes them.",
["pkging/stdos/stdos.go","pkging/stdos/file.go"],[("Parse, Info(pkg), Join(info.Dir, name)","pkging/stdos/stdos.go"),("File keeps her, path, info of the opened file","pkging/stdos/file.go")],["path arguments of os calls","Path, Info, Name and Stat of handles","names given to the walk function"])

p("C06","Every opened file is closed or handed to the caller",
"Every file that the library or the command line tool opens or creates on the disk is, on every way out of the function that opened it, successful or failing, either closed or part of what the function returns to its caller.",
["inputs","fault_sequences","histories"],"every path through every function that opens a file, including the ones where a later step fails",
"A leaked descriptor changes no result; the failing paths after a successful open need an I/O fault that no test injects.",
["pkger.go","pkging/stdos/stdos.go","pkging/mem/add.go","pkging/pkgutil/stuff.go","cmd/pkger/cmds/pack.go","cmd/pkger/cmds/stat.go","cmd/pkger/cmds/serve.go"],[("defer f.Close() after a successful open","all openers"),("Close before the error return","pkging/stdos/stdos.go Open, Create")],["open descriptors after the call"])

p("C07","No failed step of a library call is reported as success",
"In every library function that can return an error, when any step it performs fails, the function returns a non-nil error, or panics where that is documented: no error is dropped, overwritten, or turned into success. The exceptions are errors that are documented signals (end of file, skip directory, falling back to an older layer) closing a file that was only read, and clean-up after an error that is already reported.",
["fault_sequences","inputs"],"every failing step at every place, alone or after others succeeded",
"Error paths need failing readers, writers, file systems or go commands; the tests take almost none of them.",
["pkger.go","apply.go","here/here.go","parser/parser.go","parser/source.go","parser/decl.go","parser/open.go","parser/walk.go","parser/include.go","pkging/mem/add.go","pkging/mem/embed.go","pkging/mem/file.go","pkging/mem/mem.go","pkging/stdos/stdos.go","pkging/stdos/file.go","pkging/pkgutil/stuff.go","pkging/pkgutil/dump.go","pkging/embed/embed.go","internal/maps/files.go","internal/maps/infos.go"],[("if err != nil { return err } after each fallible call","whole library")],["error results"])

p("C08","Packing leaves a complete generated file or none",
"When packing reports success, the generated file was created, all of its content was written, flushed and closed without an error. When any step fails or panics, the failure is reported and no generated file stays behind. A previous generated file is removed before the sources are analysed.",
["fault_sequences","crash_points"],"every step of packing as the one that fails",
"cmd/pkger has no tests; pkgutil tests pack into a buffer that cannot fail.",
["cmd/pkger/cmds/pack.go","pkging/pkgutil/stuff.go"],[("remove on failure in a deferred function","cmd/pkger/cmds/pack.go Package"),("errors of Stuff, Flush and Close are returned","cmd/pkger/cmds/pack.go Package")],["the generated file","result of Package"])

p("C09","A failing command ends with a non-zero exit status",
"When any step of a pkger command fails (flags, tidying the module, printing and the removal of an earlier generated file aside), the error reaches the main program, and the process ends with a non-zero exit status; likewise after a panic. No command reports success after a failed step.",
["inputs","fault_sequences"],"every sub command, every step that can fail",
"cmd/pkger has no tests at all.",
["cmd/pkger/main.go","cmd/pkger/cmds/pack.go","cmd/pkger/cmds/list.go","cmd/pkger/cmds/parse.go","cmd/pkger/cmds/info.go","cmd/pkger/cmds/path.go","cmd/pkger/cmds/stat.go","cmd/pkger/cmds/serve.go"],[("Exec returns the first error","cmd/pkger/cmds"),("log.Fatal in main","cmd/pkger/main.go")],["exit status"])

p("C10","Packed files are served from memory alone",
"Operations of the in-memory implementation and of its files, and decoding embedded data, never touch the file system of the machine, start a process or use the network; only adding files from disk reads them. A packed program therefore behaves the same on a machine without the sources or the go tool.",
["inputs","configurations","histories"],"every operation of the in-memory implementation, on every machine",
"The tests run inside the source tree with the go tool present, where a fallback to disk goes unnoticed.",
["pkging/mem/mem.go","pkging/mem/file.go","pkging/mem/embed.go","pkging/embed/embed.go","internal/maps/files.go","internal/maps/infos.go"],[("operations work on the maps only","pkging/mem")],["system calls made by the in-memory implementation"])

p("C11","Reading never changes the in-memory store",
"Open, Stat, Walk, Info, Current, Parse and encoding on the in-memory implementation, and reading, seeking, listing, closing or even writing through a handle that Open returned, never change what later operations on the implementation see. Each Open returns a handle of its own: using one has no effect on another.",
["histories","schedules"],"every sequence of lookups and every use of the handles they return",
"The tests open a file once and read it once; no test holds two handles of one file.",
["pkging/mem/mem.go","pkging/mem/file.go","pkging/mem/embed.go"],[("Open copies the stored file into a new handle","pkging/mem/mem.go Open"),("Write goes to a buffer of the handle","pkging/mem/file.go Write")],["content, info and listing seen after a sequence of reads"])

p("C12","All in-memory operations agree on what a name denotes",
"In the in-memory implementation Create, MkdirAll, Open, Stat, Remove and Walk find the same entry for the same name, own or foreign package alike: what was created under a name is what Open and Stat return for it, with its path, the package info of the package it is in, its content and file info, and after Remove the name is reported as missing. Opening, examining or removing a name that is not there is an error and changes nothing.",
["histories","inputs"],"every sequence of operations on every set of names",
"The tests do one create, one open and one remove of one name in the current package.",
["pkging/mem/mem.go","internal/maps/files.go"],[("all operations use the parsed path as the key","pkging/mem/mem.go")],["results of Open, Stat, Remove"],[("files","path to stored file","pkging/mem/mem.go Pkger")])

p("C13","Subtree operations stay inside the named subtree",
"In the in-memory implementation RemoveAll(name) removes exactly the entries of the named package that are name itself or below it, element by element, so that a sibling that merely starts with the same letters, or a file of another package, is kept. Walk(name) visits exactly those entries, a directory before its content and in the order of a disk walk; skipping a directory skips exactly its content. Remove refuses a directory that has content.",
["inputs","histories"],"every set of stored names, every root, every walk function",
"The tests use one tree whose names are not prefixes of each other, one package, and no walk function that skips.",
["pkging/mem/mem.go"],[("path element prefix test","pkging/mem/mem.go within"),("sort of the keys","pkging/mem/mem.go Walk")],["entries left after RemoveAll","names visited by Walk"])

p("C14","In-memory creation keeps the directory tree well formed",
"In the in-memory implementation Create fails unless the parent directory (when that is not the root of the package) exists as a directory in the same package, fails on a name that is a directory, and otherwise stores a new empty file. MkdirAll creates the named directory and every missing parent of it in the same package, as directories with the given permissions; it leaves an existing directory exactly as it is, and fails without change on a name, or a parent, that is a file.",
["inputs","histories"],"every sequence of Create and MkdirAll calls",
"The tests create one file in the root and one deep directory in an empty store.",
["pkging/mem/mem.go"],[("parent looked up before the store","pkging/mem/mem.go Create"),("existing entry looked up, parents first","pkging/mem/mem.go MkdirAll")],["entries after Create and MkdirAll"])

p("C15","What was written is the content after Close, with its size",
"For a file created in memory, the bytes of all writes, in order and complete, become its content when it is closed, its reported size is the length of exactly that content, and its modification time is set; Close ends the use of the handle's read and write state. Closing a handle that was not written to changes neither content nor info.",
["inputs","histories"],"every sequence of writes and every close",
"The tests write one buffer once and close.",
["pkging/mem/file.go"],[("Write appends to a buffer, Close publishes it","pkging/mem/file.go")],["content and Stat after Close"])

p("C16","Reading an in-memory file yields exactly its content, then EOF",
"Reading a handle of an in-memory file returns the bytes of its content from the current position, and end of file, not another error, when there are no more, for empty files too; seeking moves that position as the standard byte reader does, rejects what it rejects, and never changes the content. Reading a directory is an error.",
["inputs","histories"],"every content, every sequence of reads and seeks",
"The tests read non-empty files from start to end and seek to four positions.",
["pkging/mem/file.go"],[("bytes.Reader over the content","pkging/mem/file.go Read, Seek")],["results of Read and Seek"])

p("C17","Directory listings are complete, paged and end with EOF",
"Readdir of a directory handle reports each direct child exactly once and neither the directory itself nor deeper entries. A positive count returns at most that many and continues after the ones returned before, with end of file when none are left; other counts return all the remaining ones and no error. Readdir of something that is not a directory is an error.",
["inputs","histories"],"every tree, every sequence of Readdir calls with any counts",
"Readdir is only exercised through one directory page of the HTTP test, with a negative count.",
["pkging/mem/file.go","pkging/stdos/file.go"],[("walk that skips sub directories, and a position","pkging/mem/file.go Readdir"),("forwards to the os file","pkging/stdos/file.go Readdir")],["results of Readdir"])

p("C18","Encoding and decoding an in-memory store loses nothing",
"Encoding an in-memory implementation covers every stored file and every package info, and decoding restores each of them under the same name with the same content, path, package info, file info and parent, plus the current package: every piece of data that is written is read back into the place it came from. No two pieces share an encoded name.",
["inputs","programs"],"every set of files of any content",
"One test packs one tree and looks at two files of the result.",
["pkging/mem/embed.go","pkging/embed/file.go","pkging/embed/embed.go","pkging/file_info.go","pkging/mod_time.go"],[("field by field copy in MarshalJSON and UnmarshalJSON","pkging/mem/embed.go")],["decoded implementation"])

p("C19","The embedding codec is an exact pair and rejects damage",
"Decode applied to the output of Encode returns the input: Encode returns the printable form of the completely written, finished compressed stream, Decode undoes the same steps in the reverse order and returns everything the stream holds. When any step of either fails, as on damaged or truncated input, an error is returned and no data.",
["inputs"],"every byte string to encode; every byte string to decode",
"One test encodes and decodes three bytes; no test decodes damaged input.",
["pkging/embed/embed.go"],[("gzip then hex, closed before its bytes are taken","pkging/embed/embed.go Encode"),("hex then gzip, copied to the end","pkging/embed/embed.go Decode")],["results of Encode and Decode"])

p("C20","The generated file is a valid Go file that applies the packed data",
"The file that packing generates is syntactically valid Go, starts with the standard generated-code marker and its build constraint, belongs to the package of the directory it is written to, and its only effect is to apply the decoded embedded data; what it refers to exists in this module with fitting signatures, and the embedded data cannot end the literal it is in.",
["inputs","programs"],"every module packed, every content, every output directory",
"No test generates the file, let alone compiles it.",
["cmd/pkger/cmds/pack.go","pkging/pkgutil/stuff.go","pkging/embed/embed.go","apply.go","pkging/mem/embed.go"],[("template in Package","cmd/pkger/cmds/pack.go Package")],["the generated file"])

p("C21","Packing and listing the same sources gives the same output",
"Two runs of packing, listing or parsing over the same files produce the same output: nothing that is written depends on the iteration order of a map, the time, random numbers, the process or concurrency.",
["inputs","schedules"],"every module, every run",
"Tests compare counts, not order, and a random order passes a test most of the time.",
["parser/parser.go","parser/decl.go","pkging/mem/embed.go","pkging/mem/add.go","pkging/mem/mem.go","pkging/pkgutil/stuff.go","internal/maps/files.go","internal/maps/infos.go","cmd/pkger/cmds/pack.go","cmd/pkger/cmds/list.go","cmd/pkger/cmds/parse.go"],[("sort before a list is returned","parser/decl.go Files, parser/parser.go ParseDir, internal/maps"),("encoding/json sorts map keys","pkging/mem/embed.go")],["generated file","output of pkger list and pkger parse"])

p("C22","Each documented declaration is found and includes its files",
"In every analysed source file each call of pkger.Dir, Open, Stat, Walk, Include, Create and MkdirAll whose first argument is a string literal or a constant of that file, wherever the call is, yields a declaration of its kind with that value; nothing else does. All declarations found are reported; those of the first five kinds contribute their file or, for a directory, its whole tree, and paths the program creates itself are known, as they are spelled there, before the others are resolved and are not required to exist.",
["programs"],"every Go source file",
"The tests count the declarations of one reference application.",
["parser/source.go","parser/parser.go","parser/decl.go","parser/open.go","parser/walk.go","parser/stat.go","parser/http.go","parser/include.go","parser/create.go","parser/mkdir.go"],[("switch over the function name","parser/source.go parse"),("ordered list of names","parser/parser.go Decls"),("Filer and Virtualer","parser/decl.go Files")],["declarations and files reported"])

p("C23","No input makes the library panic",
"Parsing any source the Go parser accepts, decoding any embedded data, and any operation with any argument never panics: every index and slice expression is within bounds, every type assertion is checked, nothing that may be nil, or that came with an error or a false ok, is used without a test. The only deliberate panic is applying an implementation that failed to decode.",
["inputs","programs"],"every input of every exported function",
"Tests use well-formed input; a panic needs the odd one.",
["parser/source.go","parser/parser.go","parser/walk.go","pkging/mem/embed.go","pkging/mem/file.go","pkging/mem/mem.go","pkging/stdos/stdos.go","internal/maps/files.go","internal/maps/infos.go","pkging/file_info.go","apply.go"],[("nil, length, ok and error tests before use","whole library")],["panics"])

p("C24","File info is copied faithfully and survives encoding",
"The file info the library reports for a file has the name, size, mode, modification time, directory flag and system data of the info it was taken from, each from the attribute of the same name; a copy is independent of the original. In encoded form every attribute has a name of its own and the modification time keeps its nanoseconds and zone.",
["inputs"],"every file info",
"The test compares one file's info, its time only to the second.",
["pkging/file_info.go","pkging/mod_time.go"],[("NewFileInfo and the accessors","pkging/file_info.go"),("RFC3339Nano","pkging/mod_time.go")],["os.FileInfo methods","JSON form"])

p("C25","Implementations can be shared by concurrent readers",
"Any number of goroutines may use one disk or in-memory implementation, and the package-level functions, for lookups at the same time without a data race, from its very first use on: shared state is only reached through synchronized maps, locks and once-only initialisation, and a lookup writes no other shared state.",
["schedules"],"all interleavings of lookups, the first ones included",
"The tests use each implementation from one goroutine.",
["internal/maps/files.go","internal/maps/infos.go","pkging/mem/mem.go","pkging/stdos/stdos.go","pkger.go","here/here.go"],[("sync.Map behind sync.Once","internal/maps"),("fields set in constructors only","pkging/mem, pkging/stdos")],["data races"])

p("C26","The library never prints, exits or changes the process",
"No library function (outside the command line tool and the test helpers) writes to the standard streams or the log, exits the process, changes its working directory (but while the go tool is asked about a directory) or environment, installs signal handlers or starts goroutines that outlive the call.",
["inputs","histories"],"every call of every library function",
"A stray print or exit on a rare path changes no tested result.",
["pkger.go","apply.go","here/here.go","parser/parser.go","parser/source.go","pkging/wrap.go","pkging/mem/mem.go","pkging/stdos/stdos.go","pkging/pkgutil/stuff.go","pkging/embed/embed.go","internal/maps/files.go"],[("absence of such calls","whole library")],["standard streams, exit, working directory, environment"])

p("C27","Only the operations meant to modify the disk do so",
"In the library, only Create, MkdirAll, Remove, RemoveAll and writing through a created file of the disk implementation modify the file system, each with the one modification it is named after. The command line tool itself creates or removes nothing but the generated file (of the output directory) in its own steps; info, path, parse, stat and serve modify nothing.",
["inputs","histories"],"every operation and command with every argument",
"No test looks for files that changed besides the one it uses.",
["pkging/stdos/stdos.go","pkging/stdos/file.go","pkging/mem/add.go","parser/parser.go","cmd/pkger/cmds/pack.go","cmd/pkger/cmds/list.go","cmd/pkger/cmds/info.go","cmd/pkger/cmds/path.go","cmd/pkger/cmds/parse.go","cmd/pkger/cmds/stat.go","cmd/pkger/cmds/serve.go"],[("which functions call os mutators","whole module")],["file system after an operation"])

p("C28","Every command and flag of the tool has its documented effect",
"Every sub command (serve, stat, info, path, parse, list) is reachable by its name, gets the arguments after it, and without a sub command the tool packs; anything else is an error. Each -include of pack and list reaches the analysis of the sources, and -o selects the directory, below the current module, in which the generated file is written and removed. parse prints the declarations of each package it is given by import path, stat every entry of a directory, info and path what each argument denotes, list the import path of the module and every file, as JSON if and only if -json is given. Without arguments serve, stat, info and parse look at the current directory. -h prints the usage and does nothing else, and no command fails unless a step of it does or an argument is missing.",
["inputs"],"every command line",
"cmd/pkger has no tests.",
["cmd/pkger/cmds/pack.go","cmd/pkger/cmds/list.go","cmd/pkger/cmds/parse.go","cmd/pkger/main.go"],[("table of sub commands and Route","cmd/pkger/cmds/pack.go"),("flag variables","cmd/pkger/cmds")],["which command runs, with which arguments"])

p("C29","A directory handle opens only what is below it",
"Opening a name through a directory handle, as an HTTP file server does with the path of a request, yields the file at that place below the directory, in the same package: no name, with parent elements or back slashes, reaches a file outside the directory, for the disk and the in-memory implementation alike. What is returned is a handle of its own.",
["inputs"],"every name, every directory handle of either implementation, own and foreign packages",
"The HTTP test requests four well-formed paths.",
["pkging/stdos/file.go","pkging/mem/file.go","pkger.go"],[("Join(dir, Clean(\"/\"+name)) with the package of the handle","pkging/stdos/file.go Open, pkging/mem/file.go Open")],["file returned by File.Open"])

p("C30","Every listed file is embedded whole, under the name it is opened by",
"Packing adds every file the declarations list (only those ending in .tmp are left out) and, for a directory, everything below it; each is stored with its complete content, its file info and the package info of its directory (or of the directory that was added), under its place in the current module or, for a file outside of that, in its own module. If any of them cannot be read the packing fails.",
["inputs","programs","fault_sequences"],"every list of files, every content",
"One test packs one tree and looks up two names of it, both in the main module.",
["pkging/pkgutil/stuff.go","pkging/mem/add.go"],[("loop over the files, Add for each","pkging/pkgutil/stuff.go Stuff"),("copy of the whole file","pkging/mem/add.go Add")],["content of the packed implementation"])

p("C31","A listed file's path, package and place on disk agree",
"For every file the parser reports, the place on disk is its path's name below the directory of its module, and the package info is one of the module the path names: whether it stems from a declaration, from -include or from walking a directory. The list has no duplicates and is sorted by path.",
["programs","inputs"],"every declaration in every module, own and foreign packages",
"The tests count the files and compare prefixes.",
["parser/source.go","parser/include.go","parser/walk.go","parser/open.go","parser/decl.go"],[("File{Abs, Path, Here}","parser/source.go, parser/include.go, parser/walk.go")],["parser.File values"])

p("C32","All source directories of the module are analysed",
"The parser analyses every Go file in every directory below the root, except directories whose name starts with a dot, an underscore, vendor, node_modules or testdata, whatever the root itself is called; a directory it cannot read or a file it cannot parse is an error, never silently left out.",
["programs","configurations"],"every directory tree",
"The tests parse one reference tree.",
["parser/parser.go"],[("walk over the root with the list of ignored prefixes","parser/parser.go parse, ParseDir")],["declarations found"])

p("C33","What is reported of a declaration stands in the source",
"Every declaration the parser reports states the position of its argument in the source file it is in; its methods File, Position and Value, and its JSON form, which pkger parse prints, give its kind, file, position and value as they were found; and the map of declarations by kind has all that were found.",
["programs"],"every declaration in every source file",
"The tests count declarations; none looks at a position or at the JSON form.",
["parser/source.go","parser/parser.go","parser/open.go","parser/walk.go","parser/stat.go","parser/http.go","parser/include.go","parser/create.go","parser/mkdir.go"],[("the seven declaration types with MarshalJSON, File, Position, Value","parser"),("Parser.DeclsMap","parser/parser.go")],["declarations, output of pkger parse"])

p("C34","No command line makes the tool panic",
"Whatever the arguments and flags of the pkger command, and whatever its steps report, no instruction of the tool panics: arguments are looked at only if they are there, results only if their error was nil, and the flag set of a sub command is made before the sub command is run.",
["inputs"],"every command line, every outcome of the steps",
"cmd/pkger has no tests; main turns a panic into a fatal message that users would see instead of the error.",
["cmd/pkger/main.go","cmd/pkger/cmds/pack.go","cmd/pkger/cmds/list.go","cmd/pkger/cmds/stat.go","cmd/pkger/cmds/info.go","cmd/pkger/cmds/path.go","cmd/pkger/cmds/parse.go","cmd/pkger/cmds/serve.go","cmd/pkger/cmds/usage.go"],[("length and error tests before use, Name/Flags before Exec","cmd/pkger/cmds")],["panics of the tool"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
