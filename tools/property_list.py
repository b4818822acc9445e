SAMPLES = 'the tests compare a handful of hand-written samples'
IN = ['inputs']
prop('C01', 'Read commands ask the device for exactly the requested blocks',
  'Every READ(6/10/12/16) command that is sent carries exactly the caller\'s starting block, block count and option bits in the bytes its SCSI command format defines, with every other bit zero, and asks for exactly block count times block size bytes (a READ(6) count of 0 standing for 256 blocks); the result is the device\'s response unchanged. A starting block or count that the command format cannot carry is refused and never wrapped or truncated, and values that fit are never refused.',
  IN, 'all integers as starting block and block count, all positive block sizes, all option values, all device responses',
  SAMPLES + ' of one or two read commands; the field boundaries (21, 32, 64-bit blocks, 8/16/32-bit counts) and the refusals are not sampled',
  [C + 'read.py', C + '__init__.py', C + 'control.py', C + 'operation_code.py'],
  [('field layout of the read commands', 'class bodies of Read6/10/12/16Command'), ('transfer size and refusal checks', '__init__ and execute of the read commands')],
  ['the command handed to the executer'])
prop('C02', 'Write commands send exactly the caller\'s blocks to the right address',
  'Every WRITE(6/10/12/16) command that is sent carries the caller\'s starting block, the number of blocks the caller\'s buffer holds and the caller\'s option bits in the bytes its SCSI command format defines, every other bit zero, and its payload is the caller\'s buffer unchanged; the result is the device\'s response. A buffer that is not a whole number of blocks, too many blocks, or an address that does not fit is refused and never rounded, wrapped or truncated, and what fits is never refused.',
  IN, 'all integers as starting block, all buffers (any length and content), block sizes 1, 512, 520 and 4096, all option values',
  SAMPLES + '; a silent wrap of an address or block count writes to the wrong place and no sample is near a boundary',
  [C + 'write.py', C + '__init__.py', C + 'control.py', C + 'operation_code.py'],
  [('field layout of the write commands', 'class bodies of Write6/10/12/16Command'), ('whole-block and range checks', '__init__ and execute of the write commands')],
  ['the command handed to the executer'])
prop('C03', 'WRITE SAME, COMPARE AND WRITE and UNMAP name exactly the given ranges',
  'WRITE SAME(10/16) and COMPARE AND WRITE send the caller\'s starting block, block count, option bits and buffer exactly, and UNMAP sends a parameter list whose two length fields count the bytes that follow them and whose descriptors are the caller\'s ranges in the caller\'s order. Ranges, counts or buffers that do not fit the command (including a buffer that is not a whole number of blocks of the command\'s block size) are refused and never wrapped, and what fits is never refused.',
  IN, 'all integers as block addresses and counts, all buffers, all option values, any list of ranges (list contents up to 5 ranges, list lengths without bound)',
  SAMPLES + ' per command; a wrong range here destroys data, and boundaries, refusals and list lengths are not sampled',
  [C + 'write_same.py', C + 'compare_and_write.py', C + 'unmap.py', C + 'control.py'],
  [('command layouts', 'class bodies of the WriteSame, CompareAndWrite and Unmap commands'), ('length fields of the parameter list', 'UnmapParameterListHeader'), ('range checks', '__init__ of the commands')],
  ['the command handed to the executer'])
prop('C04', 'RESERVE and RELEASE identify exactly the intended initiator',
  'RESERVE(6)/RELEASE(6) are an opcode and zeroes, and RESERVE(10)/RELEASE(10) without a third party carry no third party; a third-party device id up to 254 travels in its own byte and a larger one as an 8-byte parameter list with the long-id bit set and its length in the command. An id that does not fit in 64 bits is never sent as another id, and executing the same command twice sends the same bytes.',
  IN, 'all integers as third-party device id, all device responses', SAMPLES + ' with at most one id',
  [C + 'reserve.py', C + 'release.py'], [('third party id encoding', '__init__/execute of Reserve10Command and Release10Command')], ['the command handed to the executer'])
prop('C05', 'PERSISTENT RESERVE OUT carries the caller\'s keys, type and flags exactly',
  'Every PERSISTENT RESERVE OUT command carries the service action, reservation type, both 64-bit keys and the APTPL, ALL TARGET PORTS, SPEC I PT and UNREG flags the caller gave (zero, write-exclusive and clear when omitted) in the bytes the standard defines, everything else zero, with the parameter list length of what is sent; REGISTER AND MOVE appends the caller\'s transport id with its length and target port. Undefined service actions and keys or types that do not fit are refused, never altered.',
  IN, 'all service actions, keys, types, flags, target ports and transport ids of all lengths', SAMPLES + ' of the register and reserve actions',
  [C + 'persist/output.py', C + 'persist/transport.py', C + 'persist/transport.py'],
  [('parameter lists', 'PersistentReserveOutCommandBasicParameterList and ...RegisterAndMoveParameterList'), ('choice of list and refusal of unknown actions', 'PersistentReserveOutCommand.__init__/execute')],
  ['the command handed to the executer'])
prop('C06', 'PERSISTENT RESERVE IN reports the reservation state the device sent',
  'PERSISTENT RESERVE IN is sent with the caller\'s service action and allocation length, and its result is exactly what the response says: all announced keys in order, the reservation key, type and scope, every capability bit, and every full-status descriptor with its own key, holder, type, scope, port and transport id. What the response does not reach is reported as absent, never as some other value, and the required allocation length is the announced length plus 8.',
  IN, 'all responses of all lengths, all service actions and allocation lengths', SAMPLES + ' of short key lists',
  [C + 'persist/input.py', C + 'persist/transport.py', C + 'persist/transport.py'],
  [('response layouts', 'ReadKeysResponse, ReadReservationResponse, ReportCapabilitiesResponse, ReadFullStatusResponse'), ('length arithmetic', 'unpack conditions and required_allocation_length')],
  ['value of the command'])
prop('C07', 'Query commands are sent with exact command bytes and sizes',
  'TEST UNIT READY, READ CAPACITY(10/16), REPORT LUNS, LOG SENSE, REPORT TARGET PORT GROUPS, RECEIVE COPY OPERATING PARAMETERS, INQUIRY (standard and every vital product data page) and RECEIVE DIAGNOSTIC RESULTS send one command whose bytes are exactly opcode, service action, page, address and allocation length at the places the standard defines, all else zero, and ask for exactly the allocation length. Arguments that do not fit their field are refused and never wrapped.',
  IN, 'all integer arguments of every command', SAMPLES + ', mostly of responses rather than of commands sent',
  [C + 'tur.py', C + 'read_capacity.py', C + 'report_luns.py', C + 'log_sense.py', C + 'rtpg.py', C + 'recv_copy_results.py', C + 'inquiry/__init__.py', C + 'diagnostic/__init__.py'],
  [('command layouts', 'class bodies of the commands'), ('allocation length passed to the executer', 'execute of the commands')], ['the command handed to the executer'])
prop('C08', 'Capacity and copy-parameter responses are decoded exactly',
  'For every response long enough to hold the fields, READ CAPACITY(10) and (16) return the last block address, block length, protection, alignment and provisioning fields as unsigned numbers from the bytes and bits the standard assigns them, and RECEIVE COPY OPERATING PARAMETERS does the same for its limits and descriptor list. A response too short for a field is refused, not completed with invented values.',
  IN, 'all responses of all lengths', SAMPLES + '; sizes with the top bit set and truncated responses are not sampled',
  [C + 'read_capacity.py', C + 'recv_copy_results.py'], [('response layouts', 'ReadCapacity10Response, ReadCapacity16Response, ReceiveCopyResultsOperatingParameters...')], ['value of the command'])
prop('C09', 'REPORT LUNS returns every announced logical unit, in order, once',
  'The result of REPORT LUNS holds exactly the announced number of logical units, the i-th one being the first-level number of the i-th 8-byte entry of the response, in the device\'s order, with the raw entries kept alongside. By default a list holding any entry with further levels or another addressing method is refused as unsupported and a list of simple entries never is; a response shorter than it announces is refused, not shortened.',
  IN, 'all responses of all lengths and all 64-bit LUN values', SAMPLES + ' with few entries and one addressing method',
  [C + 'report_luns.py'], [('list length', 'the list size field of the response'), ('LUN normalisation', 'the addressing-method decoding')], ['value of the command'])
prop('C10', 'Standard INQUIRY data is decoded exactly',
  'For every standard INQUIRY response, each identity string, device type, version and capability flag is the one in the bytes and bits the standard assigns to it, with padding stripped from strings; fields beyond the end of a short response are absent and version descriptors are those present. Responses too short for the mandatory 36 bytes, or whose text is not ASCII, are refused.',
  IN, 'all responses of all lengths', SAMPLES + ' from a few arrays',
  [C + 'inquiry/standard.py', C + 'inquiry/__init__.py'], [('response layout', 'StandardInquiryDataBuffer and its extended form')], ['value of the command'])
prop('C11', 'Vital product data pages are decoded exactly',
  'For every response to a vital product data page request (supported pages, unit serial number, ATA information, block limits, logical block provisioning, Veritas, and pages without a decoder), each field is the unsigned number, text or bytes found at the position the standard assigns, lists have exactly the announced entries in order, and a response that ends inside a mandatory field is refused.',
  IN, 'all responses of all lengths', SAMPLES + ' per page',
  [C + 'inquiry/vpd_pages/' + f for f in ('supported_pages.py', 'unit_serial_number.py', 'ata_information.py', 'block_limits.py', 'logical_block_provisioning.py', 'veritas.py', 'unknown.py')],
  [('page layouts', 'the ...VPDPageBuffer classes')], ['value of the command'])
prop('C12', 'Device identification designators are decoded exactly, one after another',
  'For every device identification page, the designators are laid end to end: each one is decoded by its own type and association into exactly the identifiers, numbers and names in its bytes (big-endian, unsigned), the next begins where its announced length ends, and none is skipped or repeated. Designators of vendor or unknown types keep exactly their raw bytes and do not make the page unreadable; one whose length or format no standard defines for its type is refused.',
  IN, 'all pages of all lengths, every designator type and length', SAMPLES + ' of a few designators each',
  [C + 'inquiry/vpd_pages/device_identification.py', C + 'inquiry/vpd_pages/designators.py'],
  [('choice of decoder', 'designator selector of the page'), ('designator layouts', 'the ..._Designator classes')], ['value of the command'])
prop('C13', 'Target port group states are decoded exactly',
  'For every REPORT TARGET PORT GROUPS response, in both header formats, the result holds the groups laid end to end in the announced length, each with its own access state, preference, support flags, group number and status code, and with exactly the announced number of ports in order. Bytes after the announced length are not decoded as groups, and a group cut short is refused.',
  IN, 'all responses of all lengths and both header formats', 'no test decodes this response at all',
  [C + 'rtpg.py'], [('response layouts', 'TargetPortGroup... classes'), ('choice of format', 'RTPGCommand.execute')], ['value of the command'])
prop('C14', 'Enclosure services pages are decoded exactly',
  'For every enclosure services response (supported pages, configuration, enclosure status, element descriptors, vendor page 80h and pages without a decoder), enclosure descriptors, type headers and texts are taken from where the preceding lengths and counts (unsigned) place them, and every status element is decoded from its own four bytes with the bit layout of its own element type, as many elements per type as the configuration announces. Element types without a layout keep their raw bytes.',
  IN, 'all responses, all configurations of element types and counts', SAMPLES + ' captured from one enclosure; no test reaches counts of 128 or more',
  [C + 'diagnostic/__init__.py'] + [C + 'diagnostic/ses_pages/' + f for f in ('__init__.py', 'configuration.py', 'enclosure_status.py', 'element_descriptor.py', 'supported_pages.py', 'vendor_0x80.py', 'unknown.py')],
  [('element layouts by type', 'enclosure_status.py: the ...ElementInfo classes and the type table'), ('counts and lengths', 'configuration.py, element_descriptor.py')], ['value of the command'])
prop('C15', 'Sense data and check conditions are reported faithfully',
  'For every sense buffer of any length and content, a CHECK CONDITION is raised as AsiCheckConditionError carrying the device\'s raw sense bytes unchanged; when those bytes hold fixed (70h, 71h) or descriptor (72h, 73h) sense data, the decoded object gives the sense key, additional code and qualifier, information field and every descriptor, end to end, from the bits the standard assigns, and names the additional sense code by the standard\'s own text. Sense data that cannot be decoded still yields the error with its raw bytes.',
  IN, 'all sense buffers of all lengths; all 65536 additional code/qualifier pairs', SAMPLES + ' of a handful of buffers',
  ['src/infi/asi/sense/__init__.py', 'src/infi/asi/sense/asc.py', 'src/infi/asi/__init__.py', 'src/infi/asi/errors.py'],
  [('choice of format', 'get_sense_object_from_buffer'), ('table of additional sense codes', 'sense/asc.py'), ('error object', '_check_condition and AsiCheckConditionError')], ['the raised error and its sense object'])
prop('C16', 'Page lookups ask for that very page and decode it with its own decoder',
  'For every page code 0..255, the command that vital product data and enclosure services lookups hand out puts exactly that page code in its CDB with the page-request bit set, and decodes the response with the decoder registered for that page; pages without a decoder keep exactly their raw bytes. A page code that does not fit in a byte is never sent as another one. Tables of names give every standard code its own name.',
  IN, 'all page codes and all responses of the unknown pages', 'tests look up a handful of pages',
  [C + 'inquiry/vpd_pages/__init__.py', C + 'diagnostic/ses_pages/__init__.py', C + 'inquiry/__init__.py'], [('page lookup', 'get_vpd_page, get_ses_page'), ('name tables', 'SCSI_... dictionaries')], ['CDB bytes', 'type and value of the result'])

prop('C17', 'Every queued command ends once, with its own outcome',
  'Commands sent through an executer get indices no other pending command has, and each ends exactly once - its data returned to its caller or handed to its callback, or its error raised or handed over - whatever the queue size, the number of commands sent before and the order in which responses arrive. A command sent to a full queue is refused as such before it reaches the device, a command that fails to be sent leaves the queue as it was, a response no pending command has is an internal error that ends no command, and waiting for all ends with nothing pending. The command and executer wrappers (gevent, adapter) run each operation once and give its result.',
  ['histories', 'inputs'], 'all histories of sends, calls, waits, responses in any order and failures; all queue sizes; index counters of any value (inductive step from an arbitrary reachable queue state)',
  'the tests have one test of one response; ordering, index wrap-around at the queue bound, and failures in the middle are histories no test runs',
  [A + '__init__.py'],
  [('queue of pending commands', 'CommandExecuterBase.send, _process_pending_response, wait, call'), ('index allocation', '_next_packet_index'), ('wrappers', 'gevent_friendly, CommandExecuterAdapter')],
  ['callbacks, results and exceptions of the executer, requests given to the operating system'])
prop('C18', 'A command coroutine gives its own result or exception, once',
  'Driving a tree of nested command coroutines gives, for every step, what plain nested function calls would give: each value, whether it came from the device or from a nested coroutine, goes to the coroutine that asked for it, the caller gets the last value of the outermost one, and an exception travels from where it is raised through each waiting caller in turn until one handles it, unchanged, and is raised to the user only if none does. A failed device operation is raised in the coroutine that waits for it, and every function wrapped for synchronous use is called exactly once with its own arguments.',
  ['programs', 'histories'], 'all trees of coroutines, any depth and any sequence of values and exceptions (inductive step from an arbitrary stack); random trees against a reference evaluator on the real interpreter',
  'the tests run three small coroutines; exceptions handled halfway, values after a sub-coroutine and failures of the device operation are histories no test runs',
  [A + 'coroutines/sync_adapter.py'],
  [('stack of coroutines', 'Coroutine._next_step, Coroutine.loop'), ('outcome of device operations', '_complete_async_io of SyncCoroutine and AsyncCoroutine'), ('entry points', 'sync_wait, sync_call, async_wait')],
  ['results and exceptions of the entry points'])
prop('C19', 'Linux SCSI generic requests describe exactly the caller\'s command',
  'Every request written to a Linux SCSI generic device is one header in the kernel\'s layout that names the caller\'s command bytes and length, the right transfer direction, a buffer of exactly the caller\'s data or the requested size, the sense buffer with its size, the caller\'s timeout in milliseconds (30 seconds when none) and the command\'s index; all addresses stay valid until the response, and nothing else is set.',
  IN, 'all commands up to 255 bytes, all data and allocation lengths below 2^32, all timeouts',
  'the tests patch the header away; no test reads the bytes written to the device',
  [A + 'linux.py'], [('header layout', 'SGIO structure'), ('header contents', 'SGIO.create, LinuxCommandExecuter._os_prepare_to_send / _os_send')], ['bytes written to the device'])
prop('C20', 'Linux SCSI generic responses become the right outcome of the right command',
  'For every completed request, in whatever order responses are read, the outcome belongs to the command with the response\'s index: its data when all three statuses are good; a check condition with the device\'s sense bytes, reservation conflict, queue full, or another SCSI error naming the failing status when one is not. No failed command is reported as successful and no successful one as failed, a response to no pending command is an internal error that ends no command, and errors name the failing status by number and by its standard name.',
  ['inputs', 'histories', 'fault_sequences'], 'all values of the SCSI, host and driver status, all sense buffers, responses in any order',
  'one test of one status; combinations of statuses and orders of responses are not sampled',
  [A + 'linux.py', A + '__init__.py'], [('classification of statuses', 'LinuxCommandExecuter._handle_raw_response / _os_receive'), ('status tables', 'SCSI/HOST/DRIVER_STATUS_CODES, prettify_status')], ['result or exception of the command'])
prop('C21', 'The Linux ioctl transport reports exactly what the device answered',
  'A command executed through the Linux SG_IO ioctl is one ioctl on that device with a header describing exactly that command, and its outcome is read from the header the kernel updated: data when all statuses are good, otherwise the error for that status with the device\'s sense bytes. An ioctl that fails is the caller\'s error, unchanged, and leaves the executer able to send again; several commands given to one executer are each told their own outcome.',
  ['inputs', 'histories', 'fault_sequences'], 'all commands, statuses, data and sense bytes; a failing ioctl; three commands, one after the other or sent together', 'no test runs this executer',
  [A + 'linux.py'], [('ioctl', 'LinuxIoctlCommandExecuter')], ['arguments of the ioctl, result or exception of the command'])
prop('C22', 'The Solaris transport reports exactly what the device answered',
  'A command executed on Solaris is one USCSICMD ioctl on that device whose structure names exactly the caller\'s command bytes, data buffer, direction, sense buffer and timeout in seconds. Its outcome is the device\'s data when the status is good and otherwise the error for that status with the device\'s sense bytes and failure reason; an ioctl that fails is the caller\'s error, unchanged, and leaves the executer able to send again; several commands given to one executer are each told their own outcome.',
  ['inputs', 'histories', 'fault_sequences'], 'all commands up to 255 bytes, statuses, data and sense bytes; a failing ioctl; three commands, one after the other or sent together', 'no test runs this executer',
  [A + 'solaris.py'], [('structure', 'SCSICMD'), ('outcome', 'SolarisCommandExecuter._os_send / _os_receive')], ['arguments of the ioctl, result or exception of the command'])
prop('C23', 'The AIX transport reports exactly what the device answered',
  'A command executed on AIX is one DK_PASSTHRU call on that device whose structure names exactly the caller\'s command bytes, data buffer, direction, sense buffer and timeout. Its outcome is the device\'s data when the statuses are good and otherwise the error for that status with the device\'s sense bytes; a call that fails is an operating system error, which names the argument the driver refused, and leaves the executer able to send again; several commands given to one executer are each told their own outcome.',
  ['inputs', 'histories', 'fault_sequences'], 'all commands up to 64 bytes, statuses, data and sense bytes; a failing call; three commands, one after the other or sent together', 'no test runs this executer',
  [A + 'aix.py'], [('structure', 'sc_passthru'), ('outcome', 'AixCommandExecuter._os_send / _os_receive')], ['arguments of the call, result or exception of the command'])
prop('C24', 'The Windows transport reports exactly what the device answered',
  'A command executed on Windows is one SCSI pass-through call on that handle describing exactly the caller\'s command (longer ones than 16 bytes are refused), with its outcome the device\'s data or the error for its status with the sense bytes; with several requests outstanding, overlapped or not, each gets its own result in the order it was asked for, whatever the order of completion. A call that fails, at once or while completing, and a wait that fails or times out are errors of the request they belong to, never success; devices are opened once, for reading and writing, and closed once, as is the event of each completed request.',
  ['inputs', 'fault_sequences', 'schedules'], 'all commands, statuses, data and error numbers; overlapped requests completing at once or in any order', 'no test can run this transport',
  [A + 'win32.py'], [('pass-through structure', 'SCSIPassThroughDirect'), ('files and overlapped requests', 'Win32File, Win32AsyncFile, WinAsyncIOToken, Win32AsyncReactor, WaitForMultipleObjects')], ['arguments of the kernel32 calls, results and exceptions'])
prop('C25', 'A device is opened once, used under its own handle, and always closed',
  'Each of the per-platform device contexts opens the named device exactly once, hands out an executer for that handle with the platform\'s timeout, and closes it exactly once when the block ends - normally, by an exception (which reaches the caller unchanged), or because no executer can be made. Reading a device waits until it is readable and tells the caller by an IOError when that takes longer than the timeout, not earlier; reads and writes act on that device once with the caller\'s bytes, and failures are the caller\'s, unchanged.',
  ['inputs', 'fault_sequences', 'schedules'], 'all device names, outcomes of the block, timeouts, readiness times and failures of the operating system', 'the tests open no device',
  [A + 'executers.py', A + 'unix.py', A + 'win32.py'], [('contexts', 'executers.py'), ('device file', 'UnixFile, OSFile')], ['open, read, write, poll and close calls'])
prop('C26', 'Each platform gets its own kind of file and executer',
  'On Linux, Solaris, AIX and Windows, asking for a file and for a command executer gives the kind made for that platform, on the handle given and with the options given; on any other platform the request is refused. Overlapped files and a reactor exist on Windows only.',
  ['configurations', 'inputs'], 'all platform names, all options', 'the tests run on the one platform they run on',
  [A + '__init__.py'], [('choice', 'create_platform_command_executer, create_os_file, create_async_os_file, create_os_async_reactor')], ['type and arguments of what is made'])
prop('C27', 'Structures decoded from a device pack back to what the device said',
  'Packing a structure that was decoded from device data - designators, T10 and transport identifiers, reservation and capability data, target port groups, capacity, block limits, serial number, vendor and inquiry data - gives the very bytes the device sent, up to unassigned bits and the padding of texts, and never another field value. Packing and decoding parameter lists the host builds gives back each field.',
  IN, 'all contents of the structures, all lengths of their variable parts', 'the tests pack no decoded structure',
  [C + 'inquiry/vpd_pages/designators.py', C + 'inquiry/vpd_pages/veritas.py', C + 'inquiry/vpd_pages/block_limits.py', C + 'inquiry/vpd_pages/unit_serial_number.py', C + 'inquiry/standard.py', C + 'persist/input.py', C + 'persist/output.py', C + 'persist/transport.py', C + 'rtpg.py', C + 'read_capacity.py'],
  [('field layouts', 'the structure and buffer classes of each page'), ('lengths written', 'T10VendorDesignator and the other designators')], ['packed bytes and the fields decoded from them'])
prop('C28', 'Commands are independent of each other and hand failures on',
  'What a command sends depends on its own arguments and the options set in it only: not on other commands made, executed or changed before it or in between, nor on how often it is executed. What it returns depends on this execution\'s response only. When the transport fails, the command ends with that very exception after sending one command, and executing it again sends the same command again.',
  ['inputs', 'histories', 'fault_sequences'], 'every command class, all arguments and responses; two commands of a kind made and executed in any of the interleaved orders given, a transport failure at the one point where a command waits',
  'the tests execute each command once, on a transport that never fails',
  [C + f for f in ('control.py', 'read.py', 'write.py', 'write_same.py', 'unmap.py', 'reserve.py', 'report_luns.py', 'rtpg.py', 'tur.py', 'inquiry/__init__.py', 'diagnostic/__init__.py', 'persist/output.py', 'persist/input.py')],
  [('execution', 'execute of every command class'), ('class-level defaults', 'field declarations of every command class')], ['commands handed to the executer, results and exceptions'])
