#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run it in /verif after a change here)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, level='exploration', note='', na=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'hook_needed': None}
    if observe:
        anchors['observe_at'] = observe
    P.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
               'why_tests_cant': why, 'anchors': anchors}, level, note, na))


YUP, GEN, INI, TB, CFG = 'pp/yup.py', 'pp/yugen.py', '__init__.py', 'pylib/yutraceback3.py', 'pp/yuconfig.py'

prop('C01', 'A translated file is published all or nothing',
     'At every instant of a translation, and after any crash, power loss or I/O error in it, the output file is absent, '
     'holds its previous contents or holds the complete new text - never an empty, truncated or mixed one - and the same '
     'holds for the browse information and the AST file. When browsing is on, browse information found beside an output belongs to that output. '
     'The next undisturbed translation finishes the whole job whatever the interrupted one left behind.',
     ['crash_points', 'fault_sequences', 'inputs'],
     'every source, every option set, a crash, power loss, failing, short or lost write at every system call',
     'The tests translate strings in memory; no test writes an output file, let alone is interrupted in the middle of it.',
     [YUP], [('write beside, fsync, rename', YUP + ': shell_savetofile'), ('order of publication', YUP + ': _pp_stream')],
     ['output file, .bak, .json, .ast on disk'], 'fault_enumeration',
     'Seeded faults at numbered system calls of the real tool over a simulated file system with a power-loss model; '
     'trusts that file system model and the generator\'s expected texts.')
prop('C02', 'The previous output is never lost',
     'What the output name held before a translation (or, if it was absent, what its backup held) is found complete under '
     'the output name or the backup name at every instant of the translation and after any crash, power loss or I/O error in '
     'it, over any history of regenerations. After a successful translation the backup is exactly the output that was '
     'replaced.',
     ['crash_points', 'fault_sequences', 'histories'],
     'every history of regenerations, user edits and removals, with a fault at any system call of any of them',
     'No test makes a backup; the guarantee is about crash points inside a history of regenerations.',
     [YUP], [('backup by rename', YUP + ': shell_backup'), ('write before backup', YUP + ': shell_savetofile')],
     ['output file and .bak on disk'], 'fault_enumeration',
     'State invariant checked before every system call and after every crash over seeded histories.')
prop('C03', 'A failed translation changes nothing but the AST file',
     'A translation that fails, for whatever reason - errors in the text, missing or unreadable files, an irreducible result, '
     'I/O errors while reading - leaves the output, its backup and its browse information with their bytes, mode and '
     'identity. Only an AST file may appear, only if the result is irreducible, and no other file is left behind.',
     ['fault_sequences', 'inputs', 'configurations'],
     'every broken input and every read failure, every entry point, every earlier state of the directory',
     'Tests assert that broken text raises, never what is on disk after a failed translation.',
     [YUP, INI], [('nothing is written unless the result is plain text', YUP + ': _pp_stream')],
     ['directory tree'], 'fault_enumeration', 'Directory snapshots (bytes, mode, inode, mtime) before and after.')
prop('C04', 'The verdict is truthful',
     'The exit status of the tool is 4 times the number of files not translated (at most 252), the same from every entry point '
     'and through a response file, wrong arguments give 2, and "* OK *" is printed exactly for translated files. translate() '
     'returns true only if the complete output is saved under the name it returns. No I/O error is turned into a success, and '
     'a failing file does not keep the others from being translated.',
     ['fault_sequences', 'inputs', 'configurations'],
     'every batch of good and bad files, with faults at any system call, all entry points',
     'Tests call inner functions and never look at an exit status or at a failing disk.',
     [YUP, INI, '__main__.py'], [('count of failed files', YUP + ': cli'), ('result of saving', YUP + ': _pp_stream'),
                                 ('translate()', YUP + ': proc_file')],
     ['exit status', 'standard output', 'translate()'], 'fault_enumeration',
     'Batches over the simulated file system; the expected verdict comes from the generator, the files and the fault log.')
prop('C05', 'Translations inside one process do not influence each other',
     'Whatever was translated, failed or typed before in the same process - a batch, several calls of the API, a REPL session - '
     'a translation produces the same files, the same text and the same verdict as in a fresh process started on the same '
     'files. Command line options and configuration hold for the call they were given to only.',
     ['histories', 'inputs', 'fault_sequences'],
     'every history of command lines, API calls and REPL input in one process, with failures in between',
     'Each test starts from a known state; leaks of module-level state need a particular history.',
     [YUP, GEN, CFG], [('reset before a translation', GEN + ': yushell, yuinit'), ('configuration', YUP + ': _pp_configure')],
     ['output files, standard output, verdict'], 'exploration',
     'Each operation of a seeded history is compared with the same operation in a fresh process on the same files.')
prop('C06', 'Generated Python code is never stale',
     'Running or translating a Python source with "coding: yupp" uses code generated from the present contents of the source, '
     'of its listed dependencies and of its configuration scripts, whatever was edited, removed, restored or interrupted '
     'before, also within one tick of the file system clock. '
     '(Time stamps that go backwards are out of scope.)',
     ['histories', 'crash_points', 'schedules'],
     'every history of edits, removals and interrupted runs with any time stamp granularity',
     'There is no test of the cache; staleness needs a history with particular time stamps.',
     [YUP], [('comparison of modification times', YUP + ': proc_stream')],
     ['generated file, code that is compiled'], 'exploration',
     'Version markers in every source; known finding: an edit during a running translation.')
prop('C07', 'Cached code is the regenerated code',
     'If nothing changed since the code was generated, the next run reuses it without writing anything, and it gives Python '
     'the same code and the same line numbers in tracebacks as a regeneration does. With "force" in the configuration it is '
     'regenerated every time. Failing to read the cached code leads to a regeneration, never to a failure or partial code.',
     ['inputs', 'fault_sequences', 'configurations', 'histories'],
     'every source, header, encoding and configuration; read errors at any call of a cached run',
     'There is no test of the cache, nor of tracebacks.',
     [YUP, INI, TB], [('reuse', YUP + ': proc_stream'), ('line shift', YUP + ': proc_stream, yutraceback3.substitution')],
     ['compiled code', 'traceback text', 'output inode'], 'exploration',
     'First and cached runs of one source compared, with the system call log as witness of reuse.')
prop('C08', 'Translations running at the same time do not harm each other',
     'When several processes translate sources in the same directory at the same time, also the same source, every output ends '
     'as one of them would leave it alone, complete at every instant, and a process whose translation succeeded reported so. '
     'Different sources do not influence each other; a crashed process does not make the others fail.',
     ['schedules', 'crash_points'],
     'every interleaving of system calls of 2-4 processes, with crashes in some of them',
     'Tests are sequential; the interleavings of system calls cannot be driven from a test.',
     [YUP], [('temporary file per process', YUP + ': shell_savetofile'), ('backup', YUP + ': shell_backup')],
     ['directory tree, verdicts'], 'exploration',
     'Seeded scheduler decides after every system call; two processes saving the same output at once may fail loudly.')
prop('C09', 'A source is preprocessed exactly once however it is delivered',
     'Python code generated through "coding: yupp" does not depend on how the bytes of the source are split on the way to the '
     'decoder, on short reads, or on the kind of header line, and the whole text is preprocessed exactly once per run. '
     '"coding: yupp.<encoding>" decodes the source in that encoding; an unknown encoding is refused.',
     ['schedules', 'inputs', 'configurations'],
     'every split of the byte stream into chunks, every header form, several encodings',
     'No test uses the codec.',
     [INI], [('incremental decoder', INI + ': incremental_decoder_factory'), ('header', INI + ': read_header')],
     ['compiled code'], 'exploration', 'The text I/O layer of Python itself with seeded chunk sizes, plus direct feeding.')
prop('C10', 'The same input always gives the same output',
     'Outputs, AST files, browse information, messages and verdicts are a function of the sources, imported files, options and '
     'configuration alone. Hash seed, process id, clock, time zone, directory order, buffer sizes, short reads and writes and '
     'what ran before make no difference to a byte.',
     ['schedules', 'inputs', 'configurations'],
     'every source under any pair of environments',
     'A test runs once in one environment; no test compares two.',
     [GEN, YUP], [('ordered containers', GEN)], ['all files and streams'], 'exploration',
     'Twin runs of one case that differ in nothing but the environment; PyPy set and dict order is perturbed on purpose.')
prop('C11', 'A REPL session survives whatever is typed',
     'Each "test" translates exactly what was typed since the previous one, shows its result or an error, and leaves the session '
     'usable with nothing carried over; no input ends the session but "exit", end of input or an interrupt. A text given with -i '
     'is translated as if it were typed first. The session writes no file.',
     ['histories', 'inputs', 'fault_sequences'],
     'every sequence of lines, of any length and contents, with broken input streams',
     'Tests do not run the REPL.',
     [YUP], [('REPL', YUP + ': cli'), ('input', YUP + ': shell_input')], ['standard output, exit status'], 'exploration',
     'Sessions compared block by block with fresh translations of the same text.')
prop('C12', 'Each pass of a multi-pass source gives its own complete output',
     'A source that asks for several passages is translated once per alternative, in order, each pass with its own alternative '
     'and nothing left from the passes before, into the output name that pass chose; the passages of one source do not change '
     'those of the next one in the batch. A failing pass ends that source only and is counted once.',
     ['inputs', 'histories', 'fault_sequences'],
     'every number of passages and sources, faults in any pass',
     'Tests never run more than one pass.',
     [YUP, GEN], [('repeat', YUP + ': cli'), ('__PASSAGE__, __OUTPUT_FILE__', GEN)], ['output files, exit status'],
     'exploration', 'Expected outputs from the generator; faults by number.')
prop('C13', 'Generated C coroutines behave as coroutines',
     'C code generated from coroutine sources resumes after the point where it was suspended, keeps its static state, waits '
     'while its condition demands it, restarts, quits and ends as documented, in every interleaving of calls, for both ways of '
     'generation (direct code or macros of coroutine.h). Several coroutines in one program do not disturb each other.',
     ['schedules', 'programs'],
     'every coroutine program and every schedule of calls and condition changes',
     'The repository has examples only; a schedule is an unbounded history.',
     ['lib/corolib.yu', 'lib/coroutine.yu', 'lib/coroutine-h.yu', 'lib/coroutine.h'],
     [('labels as values', 'lib/coroutine.h'), ('direct code', 'lib/coroutine.yu')], ['trace printed by the compiled program'],
     'exploration', 'Seeded programs, translated by the real tool, compiled by gcc, driven by a seeded scheduler and compared '
     'with a Python model of the documented semantics.')
prop('C14', 'Semaphores of generated C coroutines synchronise',
     'A semaphore never lets more holders in than its initial value plus the releases made, an acquire waits exactly while the '
     'count is zero, a release lets a waiter go on, and under a fair schedule every waiter gets in once there are enough '
     'releases.',
     ['schedules', 'programs'], 'every program of acquiring and releasing coroutines under every schedule',
     'There is no test of coroutines.',
     ['lib/coroutine.h', 'lib/coroutine.yu', 'lib/coroutine-h.yu'], [('SEMAPHORE_*', 'lib/coroutine.h, lib/coroutine.yu')],
     ['trace printed by the compiled program'], 'exploration', 'As C13, with conservation and bounded liveness checks.')
prop('C15', 'Generated Python coroutines behave as coroutines',
     'Python code generated from coroutine sources yields, waits while (or until) its condition demands it, quits and reports '
     'its state as documented in every interleaving of calls and condition changes; a coroutine that has quit stays quit, and '
     'coroutines do not disturb each other.',
     ['schedules', 'programs'], 'every coroutine program and every schedule of calls',
     'There is one example, run by hand.',
     ['lib/coroutine-py.yu'], [('generators', 'lib/coroutine-py.yu')], ['trace of the program'], 'exploration',
     'Seeded programs run through the real codec under a seeded scheduler against a model.')
prop('C16', 'Browse information matches the output it lies beside',
     'With browsing on, the saved information names only files that took part in the translation, its offsets lie inside the '
     'output and are ordered, and text copied from a source is attributed to the file and position it came from. Browsing does '
     'not change the translation otherwise.',
     ['inputs', 'configurations'], 'every source with imports, macros and verbatim text',
     'No test turns browsing on.',
     [GEN, YUP], [('RESULT', GEN + ': class RESULT, TRACE')], ['.json file'], 'exploration',
     'Fragments with unique words of known origin.')
prop('C18', 'Imports are loud, contained and found in the documented order',
     'An imported library, text or script is looked for in the documented order of directories, and a missing, unreadable or '
     'broken one makes the translation fail with a message that names it. A script cannot end or corrupt the translator: an '
     'exception in it fails this translation only.',
     ['inputs', 'configurations', 'fault_sequences'],
     'every layout of import directories, every failing import at any depth',
     'Tests import fixed library files that exist.',
     [GEN], [('import', GEN)], ['output, messages, exit status'], 'fault_enumeration',
     'Layouts with markers in every candidate file and faults on the calls that read them.')
prop('C19', 'No exception escapes or corrupts the translator',
     'Running out of memory, endless recursion or an interrupt while a source is parsed or evaluated ends that translation '
     'only: it is reported as a failure, the previous output stays and the other sources of the command are translated.  At '
     'any other moment the process may end, but loudly: an exception never turns into a success with a wrong or partial '
     'output, never leaves a temporary file, and a process that goes on translates as a fresh one would.  Exhausting the '
     'stack is an error like any other and never kills the process.',
     ['fault_sequences', 'inputs', 'histories'],
     'an exception at any function call of any translation',
     'Tests cannot place an exception at a chosen call.',
     [GEN, YUP], [('catch-all', YUP + ': _pp'), ('narrow handlers', GEN)], ['output, verdict'], 'fault_enumeration',
     'An exception is raised at a seeded function call inside the real translator.')
prop('C20', 'Regeneration histories refine a simple model of the directory',
     'Over any history of translations, edits, removals and restarts, the directory is exactly what a simple model says: outputs '
     'under the documented names with the documented text and mode, the previous one as backup, browse information only with '
     'browsing, an AST file for an irreducible result, and nothing else created, changed or removed.',
     ['histories', 'inputs', 'configurations'],
     'every history of command lines and user actions over several sources',
     'Tests do not write files.',
     [YUP], [('names', YUP + ': _output_fn'), ('saving', YUP + ': _pp_stream')], ['directory tree'], 'exploration',
     'Reference model in Python, compared after every step.')
prop('C21', 'Tracebacks of preprocessed programs point at the generated code',
     'A traceback of a program run through the codec shows, for every frame of the preprocessed source, the generated file and '
     'the line in it whose code raised, whatever the header, the imports, the chunks or the cache; frames of ordinary files '
     'show what Python shows without the preprocessor. Code that is not valid Python is reported with its place and not run.',
     ['inputs', 'configurations', 'histories'],
     'every source, header form and line that raises, fresh and cached',
     'No test raises from preprocessed code.',
     [TB, INI, GEN], [('substitution', TB), ('shrink', GEN)], ['traceback text'], 'exploration',
     'The generated code is executed and raises at a marked line.')

prop('C22', 'The editor plugin leads from the output to its origin and back',
     'The command of the Sublime Text plugin in an output leads to the file and the position that the browse information beside it '
     'gives for the caret - as the output was when it was last loaded or activated, for a macro first to the call, then to the '
     'definition - and repeated it comes back to where it started. Without browse information it switches between the output '
     'and its source. Whatever was opened, closed, activated, translated again, removed or damaged before, no event and no '
     'command raises, other files are ignored and nothing on the disk is changed.',
     ['inputs', 'histories', 'schedules'],
     'every history of the editor and of translations at the same time', 'There is no test of the plugin.',
     ['sublime_text/Data/Packages/yupp/yupp.py'], [('open_file', 'sublime_text/Data/Packages/yupp/yupp.py'),
     ('GotoOriginCommand', 'sublime_text/Data/Packages/yupp/yupp.py')], ['caret and active view after the command'], 'exploration',
     'The plugin runs against a stub of the editor, the translations are the real tool.')

prop('C23', 'An option means the same wherever it is given',
     'An option has the same effect - output, its mode, browse information, verdict and messages - given on the command line, in a '
     'response file, in .yuconfig or in <file>.yuconfig (which overrides .yuconfig), in any order with the files, for the command line and '
     'for translate(), whatever options held before in the directory or in the process. A configuration script that fails, or '
     'exists but cannot be examined or read, is reported; its options are never silently dropped.',
     ['inputs', 'configurations', 'fault_sequences', 'histories'],
     'every set of options, every way to give it, every history of changes, I/O errors in reading the configuration',
     'The tests set no option except as a Python argument; configuration files are not read in any of them.',
     [YUP, CFG, INI], [('_exec_yuconfig_script', YUP), ('shell_config', YUP), ('response file', YUP + ': cli')],
     ['output, .json, standard output and error'], 'exploration',
     'Each way is compared with the command line on the same tree, so the meaning of an option itself is left to other checks.')

NA = 'a pure function of the input text: no scheduling, time, I/O or other party can influence it, so simulation with fault ' \
     'injection has nothing to vary; '
prop('L01', 'Text outside yupp constructs passes through unchanged',
     'Every character of a source that is not part of a construct of the language appears in the output unchanged and in order, '
     'apart from the documented trimming of spacing and of successive empty lines.',
     ['inputs'], 'every input text', 'Tests sample a few dozen strings.',
     [GEN], [('text', GEN + ': yuparse'), ('reduce_emptiness', GEN)],
     na=NA + 'the checks above rely on it for the fragments they generate, which are compared byte by byte')
prop('L02', 'Evaluation follows the documented lambda calculus semantics',
     'Applications, definitions, conditionals, lists, loops, late and early bounds, variadic and named arguments are reduced as '
     'the documentation of the language says, in every nesting.',
     ['programs'], 'every program of the language', 'Tests sample a few dozen programs.',
     [GEN], [('evaluation', GEN + ': yueval')],
     na=NA + 'deciding it needs a reference semantics of the language (generative differential testing), another technique')
prop('L03', 'Macros of the standard libraries expand as documented',
     'Every macro of the standard, header and dictionary libraries expands to the documented text for all arguments.',
     ['programs'], 'every argument list', 'Tests cover a few macros with one argument list each.',
     ['lib/stdlib.yu', 'lib/hlib.yu', 'lib/h.yu', 'lib/h-light.yu'], [('macros', 'lib')],
     na=NA + 'the coroutine libraries, whose expansion has behaviour over time, are C13-C15')
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p, *_ in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')

TECH = 'deterministic simulation with fault injection, seeded search'
checks, nas = [], []
for p, level, note, na in P:
    i = p['id']
    if na is None and not os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
        na = 'no check yet'
    if na:
        nas.append({'property': i, 'reason': na})
    else:
        checks.append({'property': i, 'quick_cmd': './check %s --tier quick' % i,
                       'thorough_cmd': './check %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': TECH, 'level': level, 'level_note': note})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': nas,
     'notes': 'No hooks in the repository: the simulator replaces the system call layer of the interpreter. Replay: '
              './check --replay FILE. See DESIGN.md.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed;', len(nas), 'not applicable')
