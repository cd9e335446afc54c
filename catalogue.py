# ---------------------------------------------------------------- executive
prop('E01', 'Simulation time advances to exactly the next event, never past it',
     'Every time advance moves the simulation clock to the earliest of the next pending job call, the next frame boundary, the next boundary of a synchronised child thread and the termination time; it never skips one of them and never moves backwards, and nothing else in the executive moves the clock of a running simulation. A run that reaches its end reports the last executed time.',
     'schedules configurations', 'all combinations of pending call times, child thread kinds and their boundaries, frame lengths and end times',
     'The tests run a few fixed job sets; the minimum must be right for every ordering of the pending times and every mix of thread kinds.',
     SS + 'Executive/Executive_advance_sim_time.cpp ' + SS + 'Executive/Executive_loop_single_thread.cpp ' + SS + 'Executive/Executive_loop_multi_thread.cpp',
     ['advance_sim_time @ ' + SS + 'Executive/Executive_advance_sim_time.cpp', 'job queue next-call horizon @ ' + SS + 'ScheduledJobQueue/ScheduledJobQueue.cpp'],
     'The time is compared with the specified minimum for every ordering of the quantities involved.')
prop('E02', 'Cyclic jobs run at start, start+cycle, ... and never after their stop time',
     'A cyclic job is first called at its start time and then exactly once per cycle until its stop time; a disabled job is skipped but keeps its place in the cycle. Changing the cycle at run time takes effect from the current time on, so that the next call is the next multiple of the new cycle, or immediate if the job is already due.',
     'schedules inputs', 'all orderings of call, start, stop and current times, enabled or not, and all points of a run where the cycle changes',
     'Tests sample a few cycles; off-by-one and stale-horizon errors show only for particular orderings of call, stop and current times.',
     SS + 'ScheduledJobQueue/ScheduledJobQueue.cpp ' + SS + 'SimObject/JobData.cpp ' + SS + 'Executive/Executive_add_jobs_to_queue.cpp ' + SS + 'Executive/Executive_set_job_cycle.cpp',
     ['find_next_job, find_job, get_next_job_call_time @ ' + SS + 'ScheduledJobQueue/ScheduledJobQueue.cpp', 'set_cycle, set_next_call_time @ ' + SS + 'SimObject/JobData.cpp', 'first call time @ ' + SS + 'Executive/Executive_add_jobs_to_queue.cpp'],
     'Times that are not multiples of a tic are truncated or rounded by the code; that conversion is not decided.')
prop('E03', 'Jobs run in class, phase, sim object, definition order, each exactly once',
     'In every pass over a set of jobs each enabled job runs exactly once, ordered by job class, then phase, then sim object, then order of definition. Adding or removing a job, also while a pass is in progress, neither skips nor repeats another job.',
     'programs histories', 'all sets of jobs and all sequences of insertions and removals, before and during a pass',
     'Tests insert a few jobs; the ordering and the position bookkeeping must hold for every key combination and every insertion point relative to the running pass.',
     SS + 'ScheduledJobQueue/ScheduledJobQueue.cpp',
     ['push, push_ignore_sim_object, remove, get_next_job, execute_all_jobs @ ' + SS + 'ScheduledJobQueue/ScheduledJobQueue.cpp'])
prop('E04', 'A failing job stops the simulation and its code becomes the exit code',
     'When a default data, input processor, initialization, scheduled, top or end of frame, thread synchronisation or freeze cycle job returns a non-zero code, in the main or a child thread, no later job of that pass runs, the simulation terminates, and that code is what the process exits with. A simulation in which no job fails is not stopped this way, and the shutdown jobs run after every initialization attempt.',
     'fault_sequences programs', 'all job classes, threads and points of a run at which a job can fail',
     'The tests make one or two jobs fail; every call site of every class has to check and hand on the result.',
     SS + 'Executive/Executive_loop_single_thread.cpp ' + SS + 'Executive/Executive_loop_multi_thread.cpp ' + SS + 'Executive/Executive_freeze_loop.cpp ' + SS + 'Executive/Executive_init.cpp ' + SS + 'Executive/Executive_shutdown.cpp ' + SS + 'Executive/Threads_child.cpp ' + SS + 'mains/master.cpp',
     ['result check after each job call @ ' + SS + 'Executive', 'exec_terminate_with_return and its handlers @ ' + SS + 'Executive/ExecutiveException.cpp'],
     'Results of freeze_init, unfreeze and shutdown jobs are ignored by the executive by design and are not covered.')
prop('E05', 'Main loop and child threads hand over work without loss or overlap',
     'A child thread works only after the main loop triggered it, and reports completion only after all jobs of that round have run. A synchronised child (scheduled, or asynchronous with a frame) is triggered only when its previous round is complete and its next boundary is the current time, and the main loop waits for every scheduled child before time advances and for every framed child at its frame boundary; a free running child is retriggered only when complete. A job that depends on another one starts only after that one is complete, in the main loop and in child threads.',
     'schedules configurations', 'all interleavings of main loop and child threads, all thread kinds and dependency sets',
     'A lost or early hand-over shows only under particular thread timing; tests see a handful of schedules.',
     SS + 'Executive/Executive_loop_multi_thread.cpp ' + SS + 'Executive/Threads_child.cpp ' + SS + 'Executive/Threads.cpp',
     ['wait, trigger and run steps of the main loop @ ' + SS + 'Executive/Executive_loop_multi_thread.cpp', 'child loop @ ' + SS + 'Executive/Threads_child.cpp'],
     'Memory ordering of the plain completion flags and the platform wait primitives are not decided.')
prop('E06', 'Every round of the main loop runs its job classes in the specified order',
     'In every round of the running loop, single or multi threaded: a requested freeze is entered first; top of frame jobs run exactly when the software frame starts and the frame is counted then; thread synchronisation, input processor and scheduled jobs follow in that order; then an exit request or the end time terminates the run; end of frame jobs run exactly when the frame ends, and the next frame ends one frame length later. In the multi threaded loop the frame jobs of scheduled children run at the same points. A job or input event that reschedules itself is taken into account by the next time advance, and a run request while running is dropped.',
     'schedules configurations', 'all rounds of all runs, with and without child threads, for every frame length and command',
     'Tests check a few orderings in one configuration; the two loops have to agree on every path.',
     SS + 'Executive/Executive_loop_single_thread.cpp ' + SS + 'Executive/Executive_loop_multi_thread.cpp ' + SS + 'Executive/Executive_init.cpp ' + SS + 'Executive/Executive.cpp',
     ['loop_single_thread @ ' + SS + 'Executive/Executive_loop_single_thread.cpp', 'loop_multi_thread @ ' + SS + 'Executive/Executive_loop_multi_thread.cpp', 'frame set-up @ ' + SS + 'Executive/Executive_init.cpp'])
prop('E07', 'Freeze holds simulation time and ends only on a run or exit request',
     'Entering freeze sets the mode and runs the freeze init jobs; while frozen the simulation time stands still, freeze jobs run once per freeze frame, freeze cyclic jobs run when their freeze time is reached, and freeze time moves to the next freeze call or frame end; freeze ends only on a run request (then the unfreeze jobs run and the mode is run) or an exit request. A scheduled freeze is taken at its time, the earliest first, each exactly once. No other part of the executive changes the mode.',
     'schedules histories', 'all sequences of freeze, run and stop requests and all sets of scheduled freeze times',
     'Interactive request sequences are not covered by tests; a stale request or a missed freeze time shows only for particular histories.',
     SS + 'Executive/Executive_freeze_loop.cpp ' + SS + 'Executive/Executive_freeze.cpp ' + SS + 'Executive/Executive_loop.cpp ' + SS + 'Executive/Executive_init_freeze_scheduled.cpp ' + SS + 'Executive/Executive_run.cpp',
     ['freeze_loop @ ' + SS + 'Executive/Executive_freeze_loop.cpp', 'freeze requests @ ' + SS + 'Executive/Executive_freeze.cpp'],
     'The executive\'s own freeze request jobs are called as the shipped default sim object schedules them.')
prop('E08', 'Start-up and shutdown run their job classes completely and in order',
     'Initialization runs all default data jobs, then all input processor jobs, then, unless a checkpoint was loaded meanwhile, all initialization jobs, each exactly once, and only then counts as complete. Shutdown first leaves run mode, waits for every asynchronous child that asks for it, closes the variable server connections, runs all shutdown jobs exactly when initialization was complete, and then ends the service threads and child threads, even when a shutdown job terminates.',
     'programs fault_sequences', 'all job sets, all points at which start-up or shutdown can fail',
     'Tests start and stop a few simulations; a step skipped after a failure or before a checkpoint load shows only on those paths.',
     SS + 'Executive/Executive_init.cpp ' + SS + 'Executive/Executive_shutdown.cpp ' + SS + 'Executive/Executive_call_input_processor.cpp ' + SS + 'Executive/Executive_call_default_data.cpp ' + SS + 'Executive/Executive_call_initialization.cpp',
     ['init @ ' + SS + 'Executive/Executive_init.cpp', 'shutdown @ ' + SS + 'Executive/Executive_shutdown.cpp'])
prop('E09', 'Every job is queued in exactly the place it is looked for and removed from',
     'Adding a sim object registers each of its jobs once and queues it in the one queue its class and thread call for; deleting the object takes every one of its jobs out of that same queue and out of the registries, and nothing else; its component objects and the other schedulers follow. Each job class is bound to its own queue, and clearing the queues empties every one of them, in all threads.',
     'programs histories', 'all job classes, threads and sequences of additions and deletions of sim objects',
     'Removal and clearing have to mirror insertion for every class and thread combination; tests add and remove a few objects.',
     SS + 'Executive/Executive_add_jobs_to_queue.cpp ' + SS + 'Executive/Executive_remove_jobs.cpp ' + SS + 'Executive/Executive_clear_scheduled_queues.cpp ' + SS + 'Executive/Executive_add_sim_object.cpp ' + SS + 'Executive/Executive_remove_sim_object.cpp ' + SS + 'Executive/Executive.cpp',
     ['add_job_to_queue @ ' + SS + 'Executive/Executive_add_jobs_to_queue.cpp', 'remove_jobs @ ' + SS + 'Executive/Executive_remove_jobs.cpp', 'class registration @ ' + SS + 'Executive/Executive.cpp'])
prop('E10', 'Changing the tic resolution or time keeps all scheduled times in seconds',
     'After the number of tics per second changes, the simulation time, the end time, pending freeze times, frame lengths, cycle, start and stop times of all jobs and the frames of child threads keep their values in seconds, and jobs that follow the tic value are told afterwards. Times reported in seconds keep their fraction.',
     'inputs histories', 'all tic values and all times, at any point where the resolution can change',
     'Integer division loses time only for values that are not whole seconds or not multiples of the tic; tests use round numbers.',
     SS + 'Executive/Executive_set_time_tic_value.cpp ' + SS + 'Executive/Executive.cpp ' + SS + 'Executive/Threads_set_amf_cycle_tics.cpp ' + SS + 'SimObject/JobData.cpp',
     ['set_time_tic_value @ ' + SS + 'Executive/Executive_set_time_tic_value.cpp', 'reset_job_call_times, reset_job_cycle_times @ ' + SS + 'Executive/Executive.cpp'],
     'Each rescaling term is evaluated symbolically for a set of tic pairs and times; rounding below one tic is not decided.')
prop('E11', 'A restart rebuilds all job queues from the checkpointed jobs',
     'A checkpoint contains a copy of every job. A restart empties all queues and registries, restores the scheduling data of every checkpointed job to the job with the same name, id and sim object, fails if no job of that name exists, queues all jobs of all objects again without recomputing restored times, recomputes the next boundary of asynchronous children from the restored time, and continues input processing where it was without repeating initialization.',
     'histories', 'all job sets and all points of a run at which a checkpoint is taken and loaded',
     'A field or job lost in a checkpoint shows only when the restored run needs it; tests reload a few simulations.',
     SS + 'Executive/Executive_restart.cpp ' + SS + 'Executive/Executive_checkpoint.cpp ' + SS + 'Executive/Executive_post_checkpoint.cpp ' + SS + 'SimObject/JobData.cpp',
     ['restart @ ' + SS + 'Executive/Executive_restart.cpp', 'copy_from_checkpoint @ ' + SS + 'SimObject/JobData.cpp'])
VSD = SS + 'VariableServer/'
DRD = SS + 'DataRecord/'
CA = SS + 'CheckPointAgent/'
MMD = SS + 'MemoryManager/'
prop('C01', 'A checkpoint dump or load runs its job classes completely and in order',
     'A dump runs every checkpoint job, then writes the whole memory (or exactly the selected objects) once to the announced file, in the process or in a forked copy that ends afterwards, then runs every post checkpoint job in the simulation itself. A load request for an existing file runs, once, every preload job, empties all checkpoint job queues, restores memory, restarts the executive, then runs every restart job; a missing file changes nothing. Sim objects added to or deleted from any scheduler enter or leave exactly the queue of each job\'s class.',
     'histories configurations', 'all sequences of dumps and loads, all job sets, in-process and forked dumps',
     'Tests dump and load a few simulations; a job class run at the wrong point or a selection kept from an earlier dump shows only in particular histories.',
     SS + 'CheckPointRestart/CheckPointRestart.cpp ' + SS + 'Scheduler/Scheduler.cpp',
     ['do_checkpoint, checkpoint, load_checkpoint_job @ ' + SS + 'CheckPointRestart/CheckPointRestart.cpp', 'add_sim_object, delete_sim_object @ ' + SS + 'Scheduler/Scheduler.cpp'],
     'What the written file contains is not part of this property.')
prop('C02', 'Scheduled and safestore checkpoints are taken at their times, each once',
     'Every checkpoint requested for a time that is not in the past is taken once at that time, requests for the same time together, the earliest first, whatever the order of the requests; requests in the past change nothing. Enabled safestore checkpoints follow each other by the requested period, rounded up to whole software frames, starting one period after time zero.',
     'histories inputs', 'all sequences of requests and all periods, frame lengths and tic values',
     'A request overtaken by an earlier one, or a period that is no multiple of the frame, is lost only for particular values.',
     SS + 'CheckPointRestart/CheckPointRestart.cpp',
     ['checkpoint(double), write_checkpoint, safestore_checkpoint, set_safestore_time @ ' + SS + 'CheckPointRestart/CheckPointRestart.cpp'])
prop('C03', 'Values of every type survive the trip through a checkpoint',
     'For every variable type the text written to a checkpoint is the value at its own place, with its width, sign and base: integers, bit fields and enumerations in decimal or by name, booleans by name, every character and every character of a string so that the scanner reads the same one back, infinities and NaNs in a form the scanner reads. Arrays are written and restored element by element in order over all their dimensions, pointers as references. A reduced checkpoint leaves out only values that clearing restores, and restoring or clearing writes each value to its own place, touching nothing else (bit fields only their own bits).',
     'inputs', 'all types, all values of bytes, all array dimensions',
     'There are some twenty types times dimensions times code paths for writing, clearing and restoring; tests write a few. A wrong width or stride for one type shows only for that type with a particular value.',
     f'{CA}ClassicCheckPointAgent.cpp {MMD}MemoryManager_ref_assignment.cpp',
     [f'write_singleton, is_nil_valued, write_rvalue, assign_rvalue @ {CA}ClassicCheckPointAgent.cpp', f'assign_recursive @ {MMD}MemoryManager_ref_assignment.cpp', f'clear_rvalue @ {MMD}MemoryManager_clear_memory.cpp', f'vval_* @ {MMD}vval.c', f'the scanner rules @ {CA}input_parser.l'],
     'Decimal text of 16 digits for doubles (8 for floats) is taken as the value. Wide characters do not survive (known finding).')
prop('D01', 'Every recorded sample reaches the output once, whole, in order, at its time',
     'Whenever an enabled data recording group takes a sample, the current value of every recorded variable (following pointers, with its full width) is stored together with the time of the sample; in change modes a sample is taken exactly when one of the change variables differs from the last time it was tested (plus the first one), in step mode preceded by the values before the change. Pending samples are written to the output before the buffer would overwrite them, each exactly once, oldest first, under the buffer lock; ring buffers write their last samples at shutdown. Buffered groups are flushed by the writer thread, and a removed group leaves it before it is shut down.',
     'inputs histories schedules', 'all sets of variables, sample counts, buffer sizes, buffering and recording modes',
     'Tests record a few samples of a few types; a slot lost at wrap-around or a value copied with the wrong width depends on counts, sizes and modes they do not combine.',
     f'{DRD}DataRecordGroup.cpp {DRD}DataRecordDispatcher.cpp',
     [f'data_record, write_data, init, shutdown @ {DRD}DataRecordGroup.cpp', f'remove_group, DRDWriterThread::thread_body @ {DRD}DataRecordDispatcher.cpp'],
     'The comparison of change variables is one opaque truth value (its operands and width are checked).')
prop('D02', 'Recording groups take their samples at exactly the times their rates call for',
     'A rate in seconds becomes the nearest positive number of tics. A new rate first records at the current time if that is a multiple of the rate, else at its next multiple; from then on a group records at every multiple of every one of its rates: after each sample every rate that is due advances past the current time, and the recording job is called next at the earliest time of all rates. A rate below one tic is reported and a group that cannot open its destination or schedule its rates never records.',
     'inputs histories', 'all sets of rates, tic values and current times',
     'Two rates that coincide, a rate changed in mid-run or one below a tic misbehave only for particular values; tests record with one or two rates.',
     f'{DRD}DataRecordGroup.cpp',
     [f'LoggingCycle::set_rate, calculate_next_logging_tic, advance_log_tics_given_curr_tic, data_record, init @ {DRD}DataRecordGroup.cpp'],
     'Products of a rate and a tic value are evaluated for exactly representable values.')

prop('D03', 'A recorded file says, for every recorded type, exactly what was recorded',
     'An ASCII recording prints each column, in order and separated by the delimiter, as the value of its variable in its own type, size and signedness (bit fields extracted, enumerations with their own size, floating point with the declared formats); a binary recording holds the bytes of the recorded value. The header names every column with its type, size and units, and the binary log reader turns each recorded type, also in the other byte order, back into the value recorded.',
     'inputs', 'all recordable types, sizes, values, delimiters and column counts',
     'There are some twenty types times sizes, byte orders and formats; a wrong sign, size or missed swap shows only for the values of one of them.',
     f'{DRD}DRAscii.cpp {DRD}DRBinary.cpp trick_source/data_products/Log/TrickBinary.cpp',
     [f'DRAscii::copy_data_ascii_item, write_data, format_specific_header @ {DRD}DRAscii.cpp', f'DRBinary::format_specific_write_data, format_specific_header @ {DRD}DRBinary.cpp',
      'TrickBinary::get @ trick_source/data_products/Log/TrickBinary.cpp'],
     'Conversions of floating point values to decimal text are left to the C library; the HDF5 recorder is not analysed.')

prop('V02', 'A published value is the value of its variable',
     'For every type and size, what a variable server client receives is the value copied from the variable: printed with its own width, sign and base (converted to the requested units, units appended, elements separated by commas, strings and characters escaped) or sent as its own bytes, in the byte order of the client, preceded by its name, type code and size. Copying takes the whole value from its current address (NULL pointers and unresolvable names marked), never more bytes than there is room for, and a value is handed to the writer whole. A partly indexed array stands for all its remaining elements; a unit that does not exist or fit changes nothing.',
     'inputs', 'all types, sizes, signs, array dimensions, units and byte orders',
     'There are some twenty types times sizes, formats, byte orders and array shapes; tests send a few of them, and a wrong width or sign shows only for values that need it.',
     f'{VSD}VariableReference.cpp',
     [f'stageValue, prepareForWrite, writeValueAscii, writeValueBinary, setRequestedUnits, constructors @ {VSD}VariableReference.cpp'],
     'Unit conversion itself is left to the udunits library. Copying while a message is written is not covered.')
prop('V03', 'Messages to clients are well formed, complete samples',
     'A binary message starts with its type, its length and its number of values in the byte order of the client, followed by exactly these values; a text message is its type, each value after a tab, and a newline. Whatever the number and sizes of the values, each value that fits a message is sent exactly once and in order, no message exceeds the buffer, the stated length is the real one, and an overlong text is cut, not dropped. A message holds values of one copy, taken with its time under the copy lock, and is only sent once all of them have been copied. Files sent to a client are closed on every way out.',
     'inputs schedules', 'all numbers and sizes of values, both formats, both byte orders',
     'Packing goes wrong only when a running total meets the buffer size exactly; tests send a handful of small values.',
     f'{VSD}VariableServerSession_write_data.cpp {VSD}VariableServerSession_copy_sim_data.cpp {VSD}VariableServerSession_commands.cpp',
     [f'write_binary_data, write_ascii_data, write_data @ {VSD}VariableServerSession_write_data.cpp', f'copy_sim_data @ {VSD}VariableServerSession_copy_sim_data.cpp', f'transmit_file @ {VSD}VariableServerSession_commands.cpp'],
     'The packing recurrences are evaluated for sequences of sizes around every boundary, not for all.')
prop('V04', 'Every client gets its values exactly when its modes call for them',
     'Values are copied for an enabled client exactly at the points of its copy mode: by its own thread, at its scheduled times, or in the frames given by its multiple and offset, in run and in freeze. They are sent by its thread or with the copy according to its write mode, its pause and real time; a client that cannot be written to leaves. The next scheduled copy comes one cycle later; changing to scheduled copies aligns the first copy of run and freeze with the cycle, leaving that mode withdraws them, and the shared copy job is called next when the first of all clients is due. Cycles and frame multiples are at least one. Adding, removing and one-time requests touch the variable named, and every question gets one answer.',
     'histories inputs', 'all combinations of copy mode, write mode, pause, enabling, real time, times and sets of clients',
     'The modes multiply to hundreds of situations; one client in an unusual mode can silence all others only with particular combinations of clients and times.',
     f'{VSD}VariableServerSession_copy_and_write_modes.cpp {VSD}VariableServerSession_commands.cpp {VSD}VariableServer_copy_and_write_scheduled.cpp',
     [f'copy_and_write_* @ {VSD}VariableServerSession_copy_and_write_modes.cpp', f'copy_and_write_scheduled, freeze_init, get_next_sync_call_time @ {VSD}VariableServer_copy_and_write_scheduled.cpp', f'var_set_copy_mode, var_sync, var_cycle, var_add, var_remove, var_send_once @ {VSD}VariableServerSession_commands.cpp'],
     'Truth tables are evaluated with sample times and multiples. A time set by a client thread that the simulation has passed meanwhile is not covered.')
CHD = 'trick_source/trick_utils/connection_handlers/'
TBD = SS + 'ThreadBase/'
prop('V05', 'Only admitted clients get a session, and refused ones leave nothing behind',
     'A client is admitted exactly when the check is bypassed, or its address equals an entry of the allowlist or lies in a network of it (prefix /0 to /32; a malformed entry admits nobody). A client whose connection or check fails never has its commands handled, is announced as failed and is taken out of the tables; an admitted one is registered with its session before it counts as connected. A connection that arrives while the server is disabled is accepted, closed and freed without a session.',
     'inputs schedules', 'all client addresses, allowlist entries (well formed or not) and server states',
     'The tests try a handful of addresses; masks, malformed prefixes and failed connections each need their own input.',
     f'{VSD}VariableServer.cpp {VSD}VariableServerSessionThread_loop.cpp {VSD}VariableServerListenThread.cpp',
     [f'check_ip, add_vst, delete_vst, add_session @ {VSD}VariableServer.cpp', f'thread_body @ {VSD}VariableServerSessionThread_loop.cpp', f'thread_body @ {VSD}VariableServerListenThread.cpp'],
     'Networks are evaluated for a table of addresses and prefixes. Concurrent changes of the allowlist are not covered.')
prop('V06', 'Commands are taken line by line, once, and everything written is sent whole',
     'Reading a client takes exactly the bytes up to and including the last complete line from its socket (a datagram as a whole), hands over the characters of these lines without carriage returns, stays inside its buffer and leaves the rest for later; without a complete line it leaves a stream alone and discards a datagram. Writing sends all bytes of a string or buffer to the peer of the connection exactly once while it is connected and reports the result. A connection counts as connected exactly when it was accepted; closing closes its socket once.',
     'inputs schedules', 'all contents and lengths of what is waiting, line ends at any place, all connection states',
     'Messages arrive in arbitrary pieces; tests send whole lines of moderate length.',
     f'{CHD}TCPConnection.cpp {CHD}UDPConnection.cpp {CHD}MulticastGroup.cpp {CHD}TCPClientListener.cpp',
     [f'read, write, disconnect, start, setBlockMode @ {CHD}TCPConnection.cpp', f'read, write @ {CHD}UDPConnection.cpp', f'read, restart @ {CHD}MulticastGroup.cpp'],
     'Partial sends, the end of a stream, and lines longer than the buffer are not covered (open findings in DESIGN.md).')
prop('V07', 'Service threads pause for checkpoint loads and end at shutdown, without deadlock',
     'A thread asked to pause does so at its next safe point and stays there until it is resumed; the request and its answer cannot be missed, and a thread that ends meanwhile counts as paused. Before a load, listeners, then all sessions are paused, their references disconnected and pause states saved; afterwards all are resumed with their state. Nobody waits for a thread while holding a lock that thread needs. At shutdown all threads are asked to end, then joined once or abandoned after a bounded wait; a session leaves the tables before it is deleted.',
     'schedules', 'all interleavings of simulation, listener and session threads around loads and shutdown',
     'Lost wakeups and deadlocks need a thread to be at one particular point at one particular time.',
     f'{TBD}SysThread.cpp {TBD}ThreadBase.cpp {VSD}VariableServerSessionThread.cpp {VSD}VariableServerSessionThread_loop.cpp {VSD}VariableServer_restart.cpp {VSD}VariableServer_shutdown.cpp {VSD}exit_var_thread.cpp',
     [f'force_thread_to_pause, test_pause, unpause_thread, thread_shutdown, ensureAllShutdown @ {TBD}SysThread.cpp', f'preload_checkpoint, restart, cleanup @ {VSD}VariableServerSessionThread.cpp', f'suspendPreCheckpointReload, resumePostCheckpointReload @ {VSD}VariableServer_restart.cpp', f'shutdown @ {VSD}VariableServer_shutdown.cpp'],
     'Order and lock conditions are decided per function; fairness and the time a command takes are not.')

MMD = 'trick_source/sim_services/MemoryManager/'
prop('M01', 'The memory registry describes exactly the live allocations, under its lock',
     'Every successful declaration, external mapping and operator new yields one record with the right address range, type, dimensions, language and release method, found by address and, if named, by name; a refused one changes nothing. Deleting removes both entries and releases the memory once, with the method it was allocated by, and never releases external memory. Resizing keeps the common elements in place by index and moves the entry. A name never hides another variable. Clearing covers every allocation, resetting deletes exactly the local ones. Each change is made under the lock of the registry, which is always released.',
     'inputs', 'all types, numbers of stars and dimensions, names, sentinel sizes, and orders of declaring, resizing, naming and deleting',
     'Tests declare a handful of shapes; a wrong end, release method or entry shows later, in another function, or as corrupted memory.',
     f'{MMD}MemoryManager_declare_var.cpp {MMD}MemoryManager_delete_var.cpp {MMD}MemoryManager_realloc.cpp {MMD}MemoryManager_alloc_info_map.cpp {MMD}MemoryManager_clear_memory.cpp {MMD}MemoryManager_map_external_object.cpp {MMD}MemoryManager_is_alloced.cpp',
     [f'declare_var, declare_operatornew_var @ {MMD}MemoryManager_declare_var.cpp', f'delete_var @ {MMD}MemoryManager_delete_var.cpp', f'resize_array @ {MMD}MemoryManager_realloc.cpp', f'get_alloc_info_of, set_name_at @ {MMD}MemoryManager_alloc_info_map.cpp'],
     'Conditions are evaluated over all combinations of kinds of type, storage, naming and success of the parts. Two threads declaring the same name at once, reads of the registry outside its lock and overflow of sizes are not decided.')

prop('M02', 'A reference stands for the element that it names, also after pointers move',
     'A reference made of the name of a variable followed by indices and members stands for the address of exactly the element that the C declaration gives for it, with that element\'s type, size and dimensions: arrays of any number of dimensions, pointers, arrays of pointers, members by value, by pointer and by reference. Indices outside an array, indices into what is no array and unknown members are refused, null pointers are refused and not followed. A reference that goes through pointers is known as such, and following its path again gives the element where the pointers point at that time.',
     'inputs', 'all variables, declarations and sequences of indices and members, and all values of the pointers on the way',
     'Tests take a few references; a wrong stride or path gives the value of a neighbour, in the streams of clients, in recordings and in restored checkpoints, without an error.',
     f'{MMD}MemoryManager_ref_var.cpp {MMD}MemoryManager_ref_dim.cpp {MMD}MemoryManager_ref_name.cpp {MMD}MemoryManager_make_reference_attr.cpp {MMD}follow_address_path.c',
     [f'ref_var @ {MMD}MemoryManager_ref_var.cpp', f'ref_dim @ {MMD}MemoryManager_ref_dim.cpp', f'ref_name @ {MMD}MemoryManager_ref_name.cpp', f'follow_address_path @ {MMD}follow_address_path.c'],
     'Decided over an abstract memory with variables of every kind of declaration (up to three dimensions, pointers to pointers, members three levels deep, all sizes of types); the sequences of steps the parser calls, elements of STL containers and the naming of addresses are not decided.')
prop('C04', 'A checkpoint covers every permitted value of every allocation, each at its place',
     'A full checkpoint declares every local allocation and assigns every allocation once: nameless ones get distinct names for its duration, except strings written with their pointer. Within an allocation every member whose io permits it is visited once, at its own address, in every element of every dimension, by the way its type needs, and no other. A selected checkpoint holds the named allocations and all they point to. A reduced one clears what it leaves out. Reading restores containers and takes the temporary names back.',
     'inputs', 'all kinds of members, io values, dimensions, pointers, names and storage of allocations',
     'Tests write a few variables; a member, element or allocation left out, or read from a wrong address, shows only after a restart of a simulation that uses it.',
     f'{MMD}MemoryManager_write_checkpoint.cpp {MMD}MemoryManager_alloc_depends.cpp {MMD}MemoryManager_get_stl_dependencies.cpp {MMD}MemoryManager_restore_stls.cpp {MMD}MemoryManager_restore.cpp {MMD}MemoryManager_clear_memory.cpp {MMD}MemoryManager_write_var.cpp {MMD}MemoryManager_make_reference_attr.cpp trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp',
     [f'execute_checkpoint, write_checkpoint @ {MMD}MemoryManager_write_checkpoint.cpp', f'get_alloc_deps_in_class @ {MMD}MemoryManager_alloc_depends.cpp', f'restore_stls_in_class @ {MMD}MemoryManager_restore_stls.cpp', f'read_checkpoint @ {MMD}MemoryManager_restore.cpp', f'clear_class @ {MMD}MemoryManager_clear_memory.cpp', 'write_decl, write_var @ trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp'],
     'Traversals are evaluated for sample dimensions and all kinds of members; checkpoints are simulated over sample worlds of allocations. Arrays of STL containers and what containers point to in a selected checkpoint are not covered.')

IPD, EMD = 'trick_source/sim_services/InputProcessor/', 'trick_source/sim_services/EventManager/'
prop('P01', 'An event fires exactly when its enabled conditions say so, and runs its actions',
     'When an active event is processed, each enabled condition is asked once, in order, unless it is held as fired; a variable, job or python condition counts as fired iff its value is nonzero, and one that cannot be evaluated does not fire. The event fires iff all (or any, as chosen) enabled conditions are fired, or manually; then each enabled action runs once, in order (python, or running, turning on or turning off a job), the counters and times are set, and the event goes idle unless fired manually or reactivated by an action. A non-user event (read) runs its statement once and goes idle. Setting a condition or action by number replaces or appends exactly that one and refuses numbers out of sequence; enabling, holding and reading one touch only a valid number; after a checkpoint load variables and jobs are looked up again.',
     'inputs histories', 'all combinations of enabled, held, fired and manual flags, kinds of conditions and actions, and numbers given',
     'Tests use one or two conditions with default flags; the combinations of disabled, held and manual matter in long simulations only.',
     f'{IPD}IPPythonEvent.cpp {IPD}IPPython.cpp',
     [f'process_user_event, condition, action, restart @ {IPD}IPPythonEvent.cpp', f'parse_condition @ {IPD}IPPython.cpp'],
     'Summaries are evaluated over finite sample states (up to three conditions and actions). What python statements do is opaque.')

prop('P02', 'Events are looked at when due, in order, and removed events never again',
     'Queued events are ordered by due time; processing takes exactly those due now, processes the active ones, requeues cyclic ones one cycle later, drops others, and the job next runs at the earliest remaining due time, never if there is none. Added events wait until the next frame, then cyclic ones are due at once (at a restart at their saved time) and one-shot ones unless past. Adding makes an event known once and hands it to the processor of its thread or to every instance of the target job, before or after it as asked; an unknown thread or job is refused. Removing takes it out of the queue, the waiting list, the list of events (the others keep their order) and off every job, and frees it if it is to be. Activating by name affects exactly the named events. A change of the tic value rescales times and cycles exactly and reschedules; loading a checkpoint drops queues and instruments, and the restart adds every event as it was.',
     'inputs histories schedules', 'all orders of adding, removing, processing and restoring events, due times, cycles, threads and tic values',
     'Tests add a few events once; order at equal times, removal while pending, growth of the list and tic changes need particular histories.',
     f'{EMD}EventManager.cpp {EMD}EventProcessor.cpp {EMD}EventInstrument.cpp',
     [f'process_event, add_pending_events, remove_event @ {EMD}EventProcessor.cpp', f'add_event, add_event_before, remove_event, time_tic_changed, restart @ {EMD}EventManager.cpp'],
     'Summaries are evaluated over finite sample states. An event that removes itself from its own action, one added twice, and events already overdue in the queue are not covered.')

RSD, CKD, TMD = 'trick_source/sim_services/RealtimeSync/', 'trick_source/sim_services/Clock/', 'trick_source/sim_services/Timer/'
prop('R01', 'In real time each frame waits for its time; overruns are counted and acted upon',
     'At the end of a frame of an active synchroniser the simulation waits until the clock reaches the time of the frame. A clock already past it is an overrun: the consecutive and total counts go up and the timer is stopped; a frame in time resets the consecutive count and restarts the timer for a frame. Reaching the allowed number of consecutive overruns or the allowed lag freezes the simulation and marks it for shutdown, or terminates it, as configured. Enabling and disabling take effect at the next frame, or freeze frame, end and restart the clock at the present time; negative times defer it. Freeze frames are waited for alike, and unfreezing moves the clock back by the time frozen. The clock shows scaled time since its reference, keeps its time when its ratio changes, shows the time it is reset to, and waiting ends at the first reading not before the time asked for; the interval timer is used only for frames it can do.',
     'inputs histories', 'all times of the clock at frame ends, counts, limits, flags, ratios and modes',
     'Overruns, limits, freezes and clock ratios depend on wall-clock behaviour that tests avoid or make trivially fast.',
     f'{RSD}RealtimeSync.cpp {CKD}Clock.cpp {CKD}GetTimeOfDayClock.cpp {TMD}ITimer.cpp',
     [f'rt_monitor, freeze_pause, unfreeze, start_realtime @ {RSD}RealtimeSync.cpp', f'clock_time, clock_spin, clock_reset @ {CKD}Clock.cpp', f'start, stop, pause @ {TMD}ITimer.cpp'],
     'Summaries are evaluated over sample values. How long the host takes, the printed statistics and a change of the tic value at run time are not decided.')

# ---------------------------------------------------------------- all sources
SRCS = 'trick_source/sim_services trick_source/trick_utils'
prop('F01', 'Messages are formatted by literal formats with matching arguments',
     'Every message, error text and generated line is formatted by a format written in the program, with exactly the arguments it names, of the types it names: text that comes from users, files, models or clients (names, units, commands, composed messages) is only ever an argument and is never interpreted as a format.',
     'inputs', 'all texts that reach a message: variable names, units, file names, client commands, python statements',
     'A percent sign in a name or a rarely taken error branch with a wrong argument corrupts memory or crashes; tests do not reach hundreds of error branches.',
     SRCS, ['message_publish @ include/trick/message_proto.h', 'publish @ trick_source/sim_services/Message/MessagePublisher.cpp'],
     'Formats the user chooses for ascii logs, and functions that forward a format parameter, are taken as given.')
prop('L01', 'No value is used that was never set, never returned or has already ended',
     'No function of the simulation services reads a variable it has not set, falls off its end where it must return a value, returns or keeps a pointer to something that has ended, deletes an object through a type without virtual destructor or with the wrong operator, indexes a fixed array outside its bounds by a constant, or confuses the size of a pointer with the size of its target.',
     'inputs', 'all paths through all functions of the runtime sources and the headers they include',
     'Such errors show only on particular branches and often not at all in a debug build; the compiler decides them for all paths.',
     SRCS, ['sources @ trick_source/sim_services', 'sources @ trick_source/trick_utils'],
     'Only what the flow analyses of the compiler decide within one function and its headers; pointers that outlive objects elsewhere are not covered.')

MSD = 'trick_source/sim_services/Message/'
prop('G01', 'A published message reaches every enabled subscriber once, whole and in order',
     'Publishing a message formats it within a fixed bound and gives level, header and text to every enabled subscriber once, in the order of subscription; if nobody subscribes, or there is no publisher yet, it is printed. The header shows level, simulation name, process and present simulation time in the tics of the executive. Each subscriber writes exactly the messages of its levels while enabled, and does not keep them back: the terminal and the message file those below 100, a custom file those of its own level, which no other custom file is given unless asked for, the playback log those of playback. Connected programs all get the message; those that do not take it are dropped and no others. The printing thread prints what waits once, in order, and after shutdown at once. A message file is renewed at initialisation and continued after a restart.',
     'inputs histories', 'all numbers and states of subscribers, connections, levels, colours, waiting messages and tic values',
     'Tests publish to the default terminal; failing connections, custom levels, disabled subscribers and the ring need particular histories.',
     f'{MSD}MessagePublisher.cpp {MSD}Message_c_intf.cpp {MSD}MessageTCDevice.cpp {MSD}MessageThreadedCout.cpp {MSD}MessageCustomFile.cpp {MSD}MessageFile.cpp',
     [f'publish, init @ {MSD}MessagePublisher.cpp', f'message_publish @ {MSD}Message_c_intf.cpp', f'update @ {MSD}MessageTCDevice.cpp', f'update, write_pending_messages @ {MSD}MessageThreadedCout.cpp'],
     'Summaries are evaluated over finite sample states. Messages dropped by a full ring and concurrent changes of the connections are not decided.')

ITD = 'trick_source/sim_services/Integrator/src/'
prop('I01', 'Integration loops cover time once, pass by pass, with the jobs of their objects',
     'Each call of an integration loop integrates exactly the interval from the end of the last one to now: pre-integration jobs, passes, dynamic events, derivatives if asked for, post-integration jobs, in that order; errors are returned. In each pass the derivative jobs run (in the first only if an integrator asks), then every enabled integration job once with its own or the common integrator, until the integrators are done; a disabled job does not end the passes of the others. Changing the cycle, or one of several rates, at any time and any number of times neither skips nor repeats a part of time; due rates move on by their cycle and the loop runs at the earliest boundary. An object is integrated by one loop at most, and moving it rebuilds the queues of both loops with the jobs of their objects.',
     'inputs histories', 'all numbers of jobs, integrators, passes, results, cycles, rates, times and orders of changes',
     'Tests integrate one state with one integrator at a fixed cycle; changed cycles, several integrators and disabled jobs need histories that no test makes.',
     f'{ITD}IntegLoopScheduler.cpp {ITD}MultiDtIntegLoopScheduler.cpp {ITD}IntegLoopManager.cpp',
     [f'integrate, integrate_dt, set_integ_cycle, rebuild_jobs, add_sim_object @ {ITD}IntegLoopScheduler.cpp', f'integrate, set_integ_rate, initialize_rates @ {ITD}MultiDtIntegLoopScheduler.cpp'],
     'Summaries are evaluated over finite sample states. The accuracy of the integrators and the search for the times of dynamic events are not decided.')

MCD = 'trick_source/sim_services/MonteCarlo/'
prop('K01', 'Every Monte Carlo run is processed and counted exactly once',
     'Each run in range is given with one value of each variable to a slave that is ready, and its outcome is counted once, as complete, failed or erroneous; a run that times out or whose slave is lost is given out again up to the maximum of tries, and late results of resolved runs are dropped. Runs out of range or behind the end of a variable file are passed over, and the master ends when all others are resolved. A slave that is stopped ends its run first and gets no other until it is started; master and slave agree on every message they exchange.',
     'histories fault_sequences', 'all queues, ranges, slaves, their states, results, losses, timeouts and numbers of tries',
     'Tests run a master and a slave to the end; timeouts, lost slaves, late results and files that end while runs are retried need particular histories.',
     f'{MCD}MonteCarlo_funcs.cpp {MCD}MonteCarlo_receive_results.cpp {MCD}MonteCarlo_dispatch_run_to_slave.cpp {MCD}MonteCarlo_master.cpp {MCD}MonteCarlo_slave.cpp {MCD}MonteCarlo_slave_process_run.cpp {MCD}MonteCarlo_dryrun.cpp',
     [f'prepare_run, set_num_runs, handle_retry, resolve_run, check_timeouts @ {MCD}MonteCarlo_funcs.cpp', f'handle_run_data, receive_results @ {MCD}MonteCarlo_receive_results.cpp', f'slave_process_run @ {MCD}MonteCarlo_slave_process_run.cpp'],
     'Summaries are evaluated over finite sample states. A run whose input is bad ends its process without a report and is found by the timeout; that is as designed and not decided here.')

MSD = 'trick_source/sim_services/MasterSlave/'
prop('S01', 'Master and slave simulations stay in step',
     'At the start each slave gets the frame, tic value, wait limit and freeze and checkpoint settings of its master, in the order in which it reads them. In each frame, and in freeze, each active slave is heard once and then told the time and the command of the master, which it takes over; a slave that freezes freezes the master; a peer that is lost or ends terminates the other, if that is asked for, and is otherwise no longer spoken to (a slave freezes) or, if the master may wait for reconnection, is waited for with a frame as limit. Checkpoints and loads of the master are followed, with their name, by the slaves that are to, and the command of the master is what it was. What is not received whole or in time is an error, never a value; waits are unbounded in freeze only.',
     'histories fault_sequences', 'all commands of both sides, numbers and states of slaves, losses at each exchange, names, limits and both kinds of connection',
     'No test runs two simulations that are synchronised; late, lost and reconnecting peers need particular histories.',
     f'{MSD}Master.cpp {MSD}Slave.cpp {MSD}MSSocket.cpp {MSD}MSSharedMem.cpp',
     [f'read_slave_status, write_master_status, checkpoint, init @ {MSD}Master.cpp', f'end_of_frame, init, get_checkpoint_name @ {MSD}Slave.cpp', f'read_*, write_* @ {MSD}MSSocket.cpp, {MSD}MSSharedMem.cpp'],
     'Summaries are evaluated over finite sample states. Memory ordering of the shared memory and tearing of names in it are not decided; how long a wait takes on the clock is not decided.')

# ---------------------------------------------------------------- not applicable to static analysis
TU = 'trick_source/trick_utils/'
def na(id, title, statement, over, text, why, files, mech, reason): prop(id, title, statement, over, text, why, files, mech, na=reason)
na('N01', 'Integrators reach their stated order of accuracy', 'Each integration method reproduces the solution of smooth systems with an error that falls with its stated order as the step shrinks.',
   'inputs', 'all smooth derivative functions and steps', 'Order of accuracy is a limit over steps and systems; a test compares one system at one step.',
   'trick_source/sim_services/Integrator/src/IntegLoopScheduler.cpp trick_source/er7_utils/CMakeLists.txt', ['integrators @ trick_source/er7_utils/integration'],
   'The order of a method is an algebraic identity of its tableau and a bound on real functions, with rounding; a static analysis of the code could only compare constants with a copy of the tableau, which is no decision of the error.')
na('N02', 'A real-time simulation keeps to its frame under load', 'With real time enabled on a machine that can carry the load, frames start within the stated limits of wall-clock time.',
   'schedules', 'all loads and schedules of the host', 'Depends on the scheduler and hardware, not only on inputs.',
   'trick_source/sim_services/RealtimeSync/RealtimeSync.cpp', ['rt_monitor @ trick_source/sim_services/RealtimeSync/RealtimeSync.cpp'],
   'Latencies are properties of the host: no source analysis in reach bounds them. What the code does with the clock it reads is decided in R01.')
na('N03', 'Generated attributes describe the compiled layout of every user type', 'For every header that is processed, the generated attributes give each member the offset, size, type and dimensions that the compiler uses.',
   'programs', 'all user headers', 'The set of C++ headers is unbounded; tests process a few.',
   'trick_source/codegen/Interface_Code_Gen/FieldVisitor.cpp', ['FieldVisitor @ trick_source/codegen/Interface_Code_Gen/FieldVisitor.cpp'],
   'The statement quantifies over programs that the generator reads through a clang AST; deciding it needs the semantics of clang\'s libraries and of all C++ types, which no dataflow over the generator can bound. Compiling given headers would be testing.')
na('N04', 'Input-file values reach the variables they name with units converted', 'An assignment in a python input file sets exactly the named variable, converted from the given to the declared unit.',
   'inputs', 'all assignments in input files', 'Every type, dimension and unit combination is possible.',
   'trick_source/trick_swig/swig_double.cpp', ['swig typemaps @ trick_source/trick_swig'],
   'The path runs through code that SWIG generates per simulation and through the python interpreter; it is not in the repository and cannot be analysed without generating and assuming it.')
na('N05', 'Unit conversions are numerically right', 'A conversion between compatible units multiplies and adds the factors that the unit definitions give; incompatible units are refused.',
   'inputs', 'all pairs of units', 'Unit expressions are unbounded.',
   'trick_source/sim_services/UnitsMap/UnitsMap.cpp', ['units @ trick_source/sim_services/UnitsMap/UnitsMap.cpp'],
   'The factors come from the udunits library and its data file at run time; the source holds no definition to decide against.')
na('N06', 'Every variable server client is served within its cycle', 'No client, however slow or fast, delays the data of other clients or the simulation beyond its cycle.',
   'schedules', 'all schedules of clients and the simulation', 'Fairness depends on the scheduler and sockets.',
   'trick_source/sim_services/VariableServer/VariableServerSessionThread_loop.cpp', ['session loop @ trick_source/sim_services/VariableServer/VariableServerSessionThread_loop.cpp'],
   'A liveness and latency claim about threads and kernel buffers; statically only the order of the steps is decidable (V04, V06, V07).')
na('N07', 'Monte Carlo variables follow the distributions that are asked for', 'Random Monte Carlo variables are distributed, bounded and seeded as configured.',
   'inputs', 'all seeds, distributions and numbers of runs', 'A distribution is a limit over samples.',
   'trick_source/sim_services/MonteCarlo/MonteVarRandom.cpp', ['get_next_value @ trick_source/sim_services/MonteCarlo/MonteVarRandom.cpp'],
   'Distribution is a statement about sequences of pseudo-random numbers; no static rule decides it.')
na('N08', 'HDF5 recordings hold the values that were sampled', 'A recording in HDF5 form read back gives the sampled values.',
   'inputs', 'all recorded variables', 'As for the other formats.',
   'trick_source/sim_services/DataRecord/DRHDF5.cpp', ['format_specific_write_data @ trick_source/sim_services/DataRecord/DRHDF5.cpp'],
   'The code is compiled only where the HDF5 library is installed, which it is not here: there is no IR to analyse and the semantics of its packet tables would be assumed.')
na('N09', 'Flags shared by threads are seen in order on every processor', 'Values handed from one thread to another through plain flags are seen in the order they were written, on all supported processors and compilers.',
   'schedules', 'all interleavings and memory orders', 'Reorderings appear only on weakly ordered hardware or with other compilers.',
   'trick_source/sim_services/Executive/Executive_loop_multi_thread.cpp', ['child_complete @ trick_source/sim_services/Executive/Executive_loop_multi_thread.cpp'],
   'The flags are plain or volatile members: by the language these are races, so the property has no sound static argument; that the hand-over follows the protocol in program order is decided in E05.')
na('N10', 'Two runs with the same inputs give the same results', 'A simulation without real-time or external inputs gives bit-identical results in every run, also with threads that are synchronised.',
   'schedules', 'all models, inputs and schedules', 'A test compares two runs of one model.',
   'trick_source/sim_services/Executive/Executive_loop_multi_thread.cpp', ['loop_multi_thread @ trick_source/sim_services/Executive/Executive_loop_multi_thread.cpp'],
   'Depends on the user\'s models and their sharing of data between threads, which are not in the repository.')
na('N11', 'The tools that run and compare simulations report the outcome truly', 'Jobs started by the test framework are scheduled within the limit on cores, their exit states and logs are reported truly and comparisons find every differing recording.',
   'histories', 'all sets of jobs, exit codes and timings', 'Outcomes depend on processes and their timing.',
   'share/trick/trickops/WorkflowCommon.py', ['Job, WorkflowCommon @ share/trick/trickops/WorkflowCommon.py'],
   'Dynamically typed python whose behaviour depends on the states of processes and on output of other programs; a sound static analysis of it is out of reach of the tools here.')
na('N12', 'Java and Qt tools show the data that was recorded or sent', 'The viewers and plotting tools decode and display exactly the recorded and served values.',
   'inputs', 'all recordings and streams', 'User interfaces are hardly tested.',
   'trick_source/java/pom.xml', ['data products @ trick_source/java'],
   'Needs the maven dependencies and user-interface frameworks, none of which are installed; what is displayed is not a source-level fact.')
