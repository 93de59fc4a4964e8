NOTE = ('Seeded search over simulated executions of the real code: it finds violations with high probability, it does not '
        'prove absence. Trusts the simulated kernel (process, signal, clock, lock and readiness semantics) and the host '
        'kernel\'s pipes and files driven serially.')
NOTES = {}

prop('C01', 'fork loses, invents and reorders nothing, and ends when its workers end',
     'For every set of fork workers, everything each worker writes is delivered to the command downstream of fork exactly '
     'once, and the outputs of one worker arrive in the order it wrote them. The fork command finishes after its last worker '
     'has finished and only then does the next command run.',
     [S, I], 'all interleavings of worker processes and the parent, worker counts, thread ids, output sizes and timings, '
     'under the spawn and the fork start method',
     'The tests run one timing of three workers that finish at once; they never interleave a finished worker, a slow one and '
     'one whose pipe is full.',
     ['op/fork.py', 'op/forkmanager.py'],
     [('one pipe per worker, polled by the parent until every worker closed its end', 'op/forkmanager.py ForkManager.run'),
      ('worker sends pickled outputs and a closing marker', 'op/forkmanager.py ForkWorker')])

prop('C02', 'A failing fork worker takes nothing else down',
     'When a fork worker raises an error, aborts its pipeline, exits, or is killed at any point, every other worker\'s output '
     'is still delivered completely and in order, what the failed worker had already delivered stays delivered, and an error '
     'raised on one input is reported in place of that input\'s output. The fork command still finishes and the commands '
     'after it run.',
     [S, F, C], 'all kinds and moments of worker failure (any system call of the worker) times all interleavings',
     'No test kills a worker or lets one fail while others are still producing.',
     ['op/fork.py', 'op/forkmanager.py', 'core.py'],
     [('per-worker end-of-stream handling in the parent', 'op/forkmanager.py ForkManager.run'),
      ('errors travel as ordinary output values', 'core.py Op.non_fatal_error')])

prop('C03', 'Remote execution labels every output and isolates failing hosts',
     'Running a pipeline on a cluster (or under sudo) delivers, for every host, exactly the outputs and errors that host '
     'produced, in that host\'s order, each labelled with the host that produced it. A host that cannot be reached, whose login '
     'fails, or that dies or loses its connection in the middle affects only its own outputs: the other hosts\' outputs are '
     'complete, what arrives from it is a prefix of its outputs, an error about it is reported (never a silent truncation), '
     'and the command ends, whatever the host writes to its error stream.',
     [S, F, I], 'all interleavings of the per-host connections, host answers cut, delayed or failing at any byte',
     'The tests reach only localhost over a working ssh, and are skipped where there is none.',
     ['op/remote.py', 'op/fork.py', 'op/forkmanager.py', 'object/cluster.py', 'bin/farcel.py'],
     [('one worker per host, ssh pipe with a pickled stream', 'op/remote.py'), ('the remote end', 'bin/farcel.py')])

prop('C05', 'A command sees the effects of the foreground command before it',
     'In an interactive session, when the prompt returns after a command run in the foreground, every variable that command '
     'assigned in the environment has the value it assigned, and the next command observes it; deletions and changes made by '
     'concurrently finishing background jobs never lose or corrupt it.',
     [S, H], 'all interleavings of the shell, its child listener thread and the jobs, for all sequences of foreground and '
     'background commands',
     'The tests run every command inside the shell process, so job completion is never exercised.',
     ['job.py', 'main.py', 'op/assign.py', 'core.py'],
     [('the child sends its namespace changes, a listener applies them', 'job.py run_command_in_child, ChildListener'),
      ('the shell waits for the foreground job', 'job.py JobControl.wait_for_idle_foreground')])

prop('C06', 'Job control signals reach exactly the jobs they are for',
     'Ctrl-C ends the foreground job and no other job, ctrl-Z pauses the foreground job only and leaves running background '
     'jobs running, bg resumes a paused job in the background, and fg resumes it and waits for it. The job list shows exactly '
     'the jobs that exist with their true state, and no signal or job command ever ends the shell itself. When the shell ends, '
     'every remaining job is ended.',
     [S, H], 'all sequences and timings of ctrl-C, ctrl-Z, bg, fg, jobs and commands, against jobs that end at any moment',
     'No test sends a signal or starts a job.',
     ['job.py', 'op/bg.py', 'op/fg.py', 'op/jobs.py', 'op/jobop.py', 'main.py'],
     [('signal handlers of the shell', 'job.py JobControl.ctrl_c_handler, ctrl_z_handler'),
      ('job states', 'job.py Job.pause, run_in_background, run_in_foreground, kill')])

prop('C07', 'A job that dies badly does not impair later jobs',
     'A job killed or crashed at any point, including in the middle of reporting its results, leaves the shell running: the '
     'prompt comes back, and the effects of every later job are still applied.',
     [S, C, F], 'a job killed at any of its system calls, results that cannot be applied, followed by further jobs',
     'No test lets a job die.',
     ['job.py', 'main.py'],
     [('listener thread', 'job.py ChildListener.run')])

prop('C08', 'Every line an external command prints is delivered, in order, once',
     'When an external command is run by the bash operator in a pipeline, every line it writes to its standard output is '
     'passed on exactly once, as a string, in the order written, and every line of its standard error likewise as an error, '
     'whatever the timing and chunking of its writes (including a last line without an end of line). Every value arriving '
     'from upstream is written to its standard input as one line, in order, followed by end of file (a command for which '
     'there is no value at all is not started). This holds for one '
     'command, for commands feeding each other, for commands run repeatedly in nested pipelines, and in scripts and jobs.',
     [S, I], 'all chunkings and timings of the external programs\' output, all interleavings of the pipeline with the '
     'output thread and the programs, pipe capacities',
     'The tests run programs that print a few short lines at once.',
     ['op/bash.py', 'core.py'],
     [('escape processes and output handler thread', 'op/bash.py NonInteractive, ProcessOutputHandler')])

prop('C09', 'An external command that ends early does not break or hang the pipeline',
     'An external command run by the bash operator may exit with any status before reading its input, die by a signal, close '
     'its output, be given no input at all, print bytes that are not valid text, fail to start, or leave a background process '
     'holding its output open; or the rest of the pipeline may fail or be interrupted while it runs. In each case the '
     'pipeline ends once the command has ended (not waiting for background processes), everything the command wrote before '
     'it ended is passed on in order, and the next command runs.',
     [S, F, I], 'exit at any point of the program\'s input or output, zero to many inputs, all interleavings, failures up- '
     'and downstream, ctrl-C at any moment',
     'The tests only run programs that read everything and exit cleanly.',
     ['op/bash.py', 'core.py', 'main.py'], [('flush, cleanup, output handler', 'op/bash.py NonInteractive')])

prop('C10', 'A workspace is open in at most one shell at a time',
     'However many shells start, switch, create, delete and close workspaces concurrently, no named workspace is ever open in '
     'two live shells at once, an attempt to use a workspace in use elsewhere is refused, and deleting one that is open in '
     'another shell is refused. A shell that closes a workspace makes it available again.',
     [S, H, C], 'all interleavings of several shells\' file operations',
     'The tests use one process; the second owner is simulated by editing marker files.',
     ['object/workspace.py', 'op/ws.py', 'locations.py'],
     [('marker file renamed to carry the owner', 'object/workspace.py Marker / lock_workspace')])

prop('C11', 'A workspace whose owner died can be opened again, by exactly one shell',
     'After a shell dies at any point while a workspace is open, being opened or being closed, a later shell can open that '
     'workspace; of several shells trying at once at most one gets it; and the workspace is not reported as damaged.',
     [S, C], 'owner killed at any file operation, then any interleaving of recovering shells',
     'No test kills a process.', ['object/workspace.py'],
     [('stale owner detection', 'object/workspace.py owner')])

prop('C12', 'Saved workspace state survives a crash, a full disk and unsavable values',
     'Whatever happens while a workspace is being saved (the process is killed at any point, or writing fails at any point), '
     'the next start finds either the state saved before or the new state, completely; variables saved earlier are never '
     'lost or damaged.',
     [C, F], 'process death or I/O error at every file operation of saving the state',
     'The tests only save successfully.',
     ['object/workspace.py', 'persistence/persistence.py', 'env.py'],
     [('write of the environment and the properties', 'object/workspace.py write_environment, write_properties')])

prop('C13', 'Workspaces keep their variables apart, and across restarts',
     'Through any history of creating, opening, closing, switching and deleting workspaces and restarting the shell, a '
     'workspace\'s variables, on every opening, have exactly the values last assigned in that workspace, and assignments in '
     'one workspace never show in another.',
     [H], 'all histories of workspace commands, assignments, deletions and restarts',
     'The tests run a few fixed sequences.',
     ['object/workspace.py', 'op/ws.py', 'env.py', 'op/env.py'],
     [('environment saved on close, read on open', 'object/workspace.py close, open')])

prop('C15', 'An interrupted first start or upgrade never loses or blocks anything',
     'If the first start of the shell, or the upgrade of an older installation\'s files (any earlier layout), is interrupted '
     'at any point, fails with an I/O error at any point, or is run by several shells at once, then a shell that is not '
     'itself interrupted starts and runs commands, and the user\'s startup scripts, workspaces, their variables and '
     'stored streams are all still there (histories are replaced by design when their format changed).',
     [C, S, F], 'process death or I/O error at every file operation of first start and of migration, and concurrent first '
     'starts',
     'The tests run each migration once, to completion.',
     ['persistence/storagelayout.py', 'persistence/persistence.py', 'locations.py', 'object/workspace.py', 'main.py'],
     [('layout detection and migration', 'persistence/storagelayout.py ensure_current')])

prop('C16', 'Storing to and loading from a variable or file returns exactly the stored stream',
     'Loading a stored stream yields exactly the values stored, in order; appending adds to the end without changing what '
     'was there; storing anew replaces everything. This holds for any sequence of store, append and load in scripts, jobs and '
     'nested pipelines, including values that are shared or modified between stores, and values that cannot be stored (which '
     'are reported, and cost only themselves). If a store is cut short (by an error of the command, an I/O error, or death of '
     'the job), a later load yields what had been stored before it, followed by a beginning of what it would have stored.',
     [H, I, F], 'all sequences of stores, appends and loads, and values',
     'The tests store a few integers a few times.',
     ['op/store.py', 'op/load.py', 'picklefile.py', 'reservoir.py'],
     [('stream of pickles', 'picklefile.py')])

prop('C21', 'An error on one value of a stream costs only that value\'s output',
     'When an operator\'s function fails on some input values, every other input produces the output it would have '
     'produced, in order, and each failing input is represented by one error in its place; the shell then runs the next '
     'command.',
     [I, F], 'any set of failing inputs, at any operator of the pipeline',
     'The tests fail on one hand-picked input.',
     ['core.py', 'function.py', 'pipeline.py', 'op/map.py', 'op/select.py', 'op/ls.py'],
     [('per-input error handling', 'core.py Op.call')])

prop('C22', 'A failed or interrupted command leaves the session usable',
     'After a command is interrupted or fails at any point, the session\'s variables, working directory and directory stack '
     'are as if the command had stopped there, nothing keeps a file or workspace locked, and later commands behave exactly '
     'as in a session in which it never ran.',
     [F, S], 'any failure or interruption point, any later command',
     'The tests start a fresh environment per test.',
     ['core.py', 'env.py', 'nestednamespace.py', 'main.py', 'reservoir.py', 'op/ws.py', 'op/write.py'],
     [('scopes are popped on the way out', 'pipeline.py, nestednamespace.py'), ('reader and writer counts', 'reservoir.py')])

prop('C23', 'The directory stack and working directory always agree',
     'Whatever sequence of cd, pushd, popd and dirs is run, the process\'s working directory, the PWD variable and the top of '
     'the directory stack agree after each command, and the stack below is what these commands make of it. A command that '
     'fails leaves all three unchanged. When directories disappear, are replaced, or cannot be accessed, before or during a '
     'command, the stack loses at most entries that could not be accessed, and the next command that changes directory '
     'restores agreement (as long as the working directory itself is gone, it may be missing from the stack). popd, pushd '
     'without an argument, and dirs drop all of the entries that have become inaccessible since, and act on those that are '
     'left.',
     [H, F], 'all histories of cd, pushd, popd, directory removal and I/O errors',
     'The tests never remove a directory on the stack in the middle of a command.',
     ['directorystate.py', 'op/cd.py', 'op/pushd.py', 'op/popd.py', 'op/dirs.py', 'env.py'],
     [('directory state', 'directorystate.py')])

prop('C18', 'timer emits one tick per interval and never drifts or bunches',
     'The timer operator emits the current time when it starts and then once per interval, in increasing order, each at the '
     'time it falls due: however long downstream processing takes, the schedule does not shift. Ticks that fall due while '
     'downstream is busy collapse into the latest of them, delivered as soon as downstream is ready; none is delivered twice. '
     'Failures downstream, and ctrl-C, end it or cost only one tick\'s output, like for any other command.',
     [S, I], 'all intervals and all downstream delays',
     'The test looks at one or two ticks in real time.',
     ['op/timer.py'], [('ticker thread and queue', 'op/timer.py')])

prop('C19', 'Listing files survives a file system that changes underneath',
     'While files and directories are created, removed and renamed, or become unreadable, during a listing, every entry that '
     'exists throughout is listed exactly once, nothing that never existed is listed, errors are reported per entry, and the '
     'listing ends.',
     [S, F], 'all interleavings of the listing with file system changes and errors on any call',
     'The tests list a file system at rest.',
     ['op/ls.py', 'op/filenamesop.py', 'op/filenames.py', 'object/file.py'],
     [('traversal', 'op/filenames.py, op/filenamesop.py')])

prop('C26', 'A command typed after a configuration change runs exactly once',
     'When the startup script of the workspace is edited while a session is running, at whatever moment and whatever the '
     'script\'s modification time and the clock say, the next command typed is run exactly once, under the new '
     'configuration, with the session\'s variables and working directory preserved. Each edit makes the session read the '
     'script at most once. An error in the new script is reported, and a session in a named workspace survives it.',
     [S, H, F], 'all timings of edits to the startup script and all clock jumps and skews',
     'The tests never change the startup script in a live session.',
     ['main.py', 'env.py'], [('restart of the session', 'main.py check_for_config_update, main_interactive_run')])

prop('N01', 'Parsing and printing round-trips',
     'Every parsed command prints to text that parses to the same command.',
     [P], 'all commands', 'The tests check fixed commands.',
     ['parser.py', 'pipeline.py'], [('parser', 'parser.py')],
     na='a pure function of its input text: no scheduling, time, I/O or fault for a simulator to decide')

prop('N02', 'Operators compute what their documentation says',
     'For every input stream, sort, unique, red, window, join, union, intersect, difference, head, tail, reverse, squish and '
     'expand yield the documented stream.',
     [I], 'all streams', 'The tests check fixed streams.',
     ['op/sort.py', 'op/red.py', 'op/window.py', 'op/join.py'], [('operators', 'op/')],
     na='single-threaded pure stream functions: nothing in them depends on schedules, clocks, I/O or crashes')

prop('N03', 'Tab completion offers exactly the valid completions',
     'At every prefix of a command line the completions offered are those that lead to a valid command.',
     [I], 'all prefixes', 'The tests check fixed prefixes.',
     ['tabcompleter.py'], [('completer', 'tabcompleter.py')],
     na='a pure function of the line and a static directory listing: no behaviour a simulated schedule or fault could change')
