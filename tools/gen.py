"""writes properties.jsonl and MANIFEST.json (python3 tools/gen.py)"""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = 'src/infi/asi/'
PS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, technique, note, done=True):
    PS.append(dict(id=id, title=title, statement=statement, quantifier={'over': over.split(), 'text': text},
                   why_tests_cant=why,
                   anchors={'files': [A + f if not f.startswith('/') else f for f in files.split()],
                            'mechanism': [{'name': n, 'where': w} for n, w in mech]},
                   _t=technique, _n=note, _done=done))


AI = 'interprocedural abstract interpretation of the syntax tree'
TRUST = ' Trusted: the frozen tables in /verif/spec and the models of the Python, ctypes and infi.instruct semantics in /verif/sa.'

# ------------------------------------------------------------------------------------------------- commands
P('C01', 'Block commands encode exactly the requested operation',
  'For every in-range LBA, transfer length, block size and flag value, READ(6/10/12/16), WRITE(6/10/12/16), WRITE SAME(10/16) '
  'and COMPARE AND WRITE put exactly the SBC descriptor block on the wire: right length and operation code, every field '
  'big-endian at its place, every other bit zero. In-range parameters are accepted, and the bytes follow the '
  'fields the command has when it is executed, however often it or similar commands were executed before.',
  'inputs', 'every LBA, block count, block size 1..2^20 and flag value, one symbolic value per field',
  'Tests sample a handful of LBAs and lengths with default flags; the layout must hold for all 2^64 of them.',
  'cdb/read.py cdb/write.py cdb/write_same.py cdb/compare_and_write.py',
  [('CDB classes and their execute()', 'cdb/read.py, cdb/write.py, cdb/write_same.py, cdb/compare_and_write.py')],
  AI + ' with symbolic parameters, bit-precise comparison with the frozen SBC layout',
  'Decides every bit of the descriptor block on every abstract path.' + TRUST)
P('C02', 'Management commands encode exactly the requested operation',
  'For every in-range parameter value the INQUIRY (standard and every VPD page), READ CAPACITY, REPORT LUNS, REPORT TARGET PORT '
  'GROUPS, LOG SENSE, PERSISTENT RESERVE IN/OUT, RESERVE/RELEASE, RECEIVE DIAGNOSTIC RESULTS, RECEIVE COPY, TEST UNIT READY and '
  'UNMAP commands put exactly the SPC/SBC descriptor block on the wire, the rest zero, as their fields are when they are '
  'executed and whatever was executed before. The allocation or parameter list length in it equals what is asked from or handed '
  'to the transport, also for parameter lists of many entries.',
  'inputs', 'every parameter value of every management command class and page factory',
  'Tests compare a few literal packets; most commands and all but a few parameter values are never encoded in a test.',
  'cdb/tur.py cdb/read_capacity.py cdb/report_luns.py cdb/rtpg.py cdb/log_sense.py cdb/persist/input.py cdb/persist/output.py '
  'cdb/reserve.py cdb/release.py cdb/unmap.py cdb/receive_copy_operating_parameters.py cdb/inquiry/__init__.py '
  'cdb/diagnostic/__init__.py', [('CDB classes and execute()', 'src/infi/asi/cdb')],
  AI + ' with symbolic parameters, bit-precise comparison with the frozen SPC layout',
  'Decides every bit of the descriptor block on every abstract path.' + TRUST)
P('C03', 'Out-of-range addresses and lengths are rejected, never truncated',
  'A block command whose LBA or block count, or a management command whose LBA, allocation length, page code, service action, '
  'key, device id or range, does not fit its field is never sent: constructing or executing it raises. Data that is not a whole number of blocks is rejected the same way.',
  'inputs', 'every integer LBA and count in -2^80..2^80, every data length around every block count, several block sizes',
  'Tests try no or one out-of-range value per command; a wrapped LBA is a write to the wrong place.',
  'cdb/read.py cdb/write.py cdb/write_same.py cdb/compare_and_write.py cdb/read_capacity.py',
  [('range assertions and field packing', 'constructors and create_datagram')],
  AI + '; on every path that reaches the executer the range must be implied by the path condition',
  'Decides must-reject on every abstract path.' + TRUST)
P('C04', 'Data-out is sent verbatim and matches the block count',
  'WRITE, WRITE SAME and COMPARE AND WRITE hand the caller\'s bytes unchanged to the transport as a write, however many times '
  'the command is executed. For WRITE the block count on the wire times the block size is the length of the data '
  '(0 means 256 blocks in WRITE(6)).',
  'inputs', 'every data content and length, every block size 1..2^20',
  'Tests write one or two buffers against a mock; truncated or padded data corrupts the medium silently.',
  'cdb/write.py cdb/write_same.py cdb/compare_and_write.py', [('SCSIWriteCommand submissions', 'execute()')],
  AI + ' with an opaque symbolic buffer', 'Decides identity of the buffer and the count/length equation on every path.' + TRUST)
P('C05', 'Data-in buffers are as long as the transfer the command asks for',
  'READ asks the transport for exactly blocks x block size bytes (256 blocks for READ(6) with count 0). Commands with an '
  'allocation length ask for exactly the number of bytes in that field, and the default allocation of every inquiry, diagnostic '
  'and capacity command holds at least the fixed part of its response.',
  'inputs', 'every block count and size, every allocation length',
  'Tests check a few lengths; a buffer shorter than the device was told to fill is an overrun, a longer one returns stale data.',
  'cdb/read.py cdb/inquiry/__init__.py cdb/report_luns.py cdb/rtpg.py cdb/persist/input.py cdb/log_sense.py',
  [('SCSIReadCommand submissions', 'execute()')], AI + ' with symbolic lengths',
  'Decides equality of the allocation field and the buffer length on every path.' + TRUST)
P('C06', 'A command is one exchange whose data or error reaches the caller',
  'Executing a command performs exactly one exchange with the transport. READ, WRITE, WRITE SAME, COMPARE AND WRITE and '
  'LOG SENSE return the transport\'s data unchanged, TEST UNIT READY returns True, and no command replaces or swallows an error raised by the transport.',
  'inputs fault_sequences', 'every command class, with the transport succeeding or raising any of the library\'s or OS errors',
  'Tests use mocks that always succeed; a swallowed error is a command wrongly reported as done.',
  'cdb', [('execute()', 'every CDB class')], AI + ' of execute() against a transport that answers or raises',
  'Decides the call count and the identity of value and exception on every path.' + TRUST)
P('C07', 'Parameter lists sent to the device describe their own contents',
  'UNMAP, PERSISTENT RESERVE OUT (basic and register-and-move) and RESERVE/RELEASE with a device id send parameter data in '
  'exactly the SPC/SBC layout for any keys, descriptors and transport ids, with every length field counting the bytes that '
  'follow it and the descriptor block\'s parameter list length equal to the length of the data.',
  'inputs', 'all keys, LBAs, counts, option values; 0..3 unmap descriptors (0..6 in the thorough tier), transport ids of 0..27 bytes',
  'Tests compare one literal packet per command.',
  'cdb/unmap.py cdb/persist/output.py cdb/persist/transport.py cdb/reserve.py cdb/release.py',
  [('parameter list structures', 'cdb/unmap.py, cdb/persist/output.py')],
  AI + ' with symbolic parameters, bit-precise comparison with the frozen layout',
  'Decides every bit of descriptor block and parameter list for list sizes up to the bound.' + TRUST)

# ------------------------------------------------------------------------------------------------- queue
QF = '__init__.py'
QM = [('CommandExecuterBase', A + '__init__.py')]
P('Q01', 'Outstanding commands never share an id',
  'At every moment, all commands that were accepted and not yet completed have pairwise different packet ids, whatever the order '
  'of submissions, failures and completions, including after the id counter wraps around. A submission while the queue has a '
  'free slot is always given an id.',
  'histories', 'all histories of submissions, failing submissions and completions in any order, up to the bound, for queue sizes '
  '1..3 (4 thorough), plus wrap-around histories at the default size',
  'Tests keep at most one or a few commands outstanding and complete them in order.', QF, QM,
  AI + ' under a most-general client and device (all histories of the abstract queue state)',
  'Decides all histories up to the stated length over the queue state; ids repeat modulo the queue size, so longer histories '
  'revisit the same states.' + TRUST)
P('Q02', 'Every accepted command is completed exactly once, with its own outcome',
  'When the response of an outstanding command arrives, that command and no other leaves the queue and its callback is called '
  'exactly once, with the data and no error on success, or no data and the error on failure. A command submitted without a '
  'callback completes silently. Executers of different devices do not affect each other.',
  'histories', 'all histories up to the bound, responses arriving in any order, each either data or error',
  'Tests complete commands in submission order with a mock; mix-ups need out-of-order completion.', QF, QM,
  AI + ' under a most-general client and device', 'Decides all histories up to the stated length.' + TRUST)
P('Q03', 'A full queue rejects before anything reaches the device',
  'Submitting while the queue holds its maximum raises AsiRequestQueueFullError before the operating system is involved, leaves '
  'the outstanding commands untouched, and works again after one completion. The queue-full query is true exactly when a '
  'submission would be rejected this way.',
  'histories', 'all histories up to the bound with 1..3 slots',
  'The error path was never executed by a test.', QF, QM, AI + ' under a most-general client and device',
  'Decides all histories up to the stated length.' + TRUST)
P('Q04', 'A failed submission leaves no trace',
  'If preparing or submitting a command fails or is interrupted, the error reaches the caller, the command is not outstanding afterwards, its '
  'callback is never called, and the other outstanding commands are unaffected.',
  'fault_sequences histories', 'a failure of preparation or submission at any point of any history up to the bound',
  'Tests never make the operating system call fail.', QF, QM, AI + ' with injected failures of the OS layer',
  'Decides all histories up to the stated length.' + TRUST)
P('Q05', 'A response that belongs to no outstanding command is an internal error',
  'A response whose id matches no outstanding command raises AsiInternalError; no callback is called and no outstanding command '
  'is lost.',
  'histories', 'any unknown id at any point of any history up to the bound, on the generic executer and on Linux',
  'Tests never produce a foreign response.', '__init__.py linux.py', QM, AI + ' under a most-general device',
  'Decides all histories up to the stated length.' + TRUST)
P('Q06', 'A synchronous call returns its own data or raises its own error',
  'call() returns the data or raises the error of the command it submitted, even when other commands are outstanding and '
  'complete first; the callbacks of those are called with their own outcomes.',
  'histories schedules', '0..2 other outstanding commands (3 thorough), all completion orders, each with data or error',
  'Tests call with an otherwise empty queue.', QF, QM, AI + ' under a most-general device',
  'Decides all completion orders for the stated queue sizes.' + TRUST)
P('Q07', 'wait() drains the queue and never receives with nothing outstanding',
  'wait() returns only when no command is outstanding, having received exactly one response for each outstanding command. With '
  'nothing outstanding it returns without touching the device.',
  'histories', 'all histories up to the bound followed by wait(), responses in any order',
  'Tests wait for one command.', QF, QM, AI + ' under a most-general device; a step budget detects endless waiting',
  'Decides all histories up to the stated length.' + TRUST)

# ------------------------------------------------------------------------------------------------- errors
EF = 'linux.py solaris.py aix.py win32.py __init__.py errors.py'
P('E01', 'A failed command is never reported as success',
  'A completion that reports a failure never yields data: the caller gets an exception. On Linux that is any SCSI status other '
  'than GOOD, any host status and any error in the low half of the driver status; on Solaris any SCSI status or request-sense '
  'status; on AIX any valid SCSI or adapter status; on Windows any SCSI status. A completion with all of them clear yields data, '
  'not an error.',
  'inputs configurations', 'every value of the status fields the kernel writes back, at their frozen ABI offsets, on four platforms',
  'Tests run on one platform with a mock kernel; most status values are never produced.', EF,
  [('_os_receive and status checks', 'linux.py, solaris.py, aix.py, win32.py')],
  AI + ' with the kernel-written fields havocked', 'Decides all status values within the stated field ranges.' + TRUST)
P('E02', 'CHECK CONDITION carries the sense data of the device',
  'On every platform a CHECK CONDITION completion raises AsiCheckConditionError holding exactly the sense bytes the device '
  'returned. Sense data that cannot be decoded still raises it, with the raw bytes and no decoded object.',
  'inputs configurations', 'every sense buffer content (symbolic bytes; response codes enumerated), four platforms',
  'Tests feed one fixed-format buffer on one platform.', EF + ' sense/__init__.py',
  [('_check_condition', A + '__init__.py'), ('_os_receive', 'platform modules')], AI + ' with symbolic sense bytes',
  'Decides identity of the sense bytes per platform.' + TRUST)
P('E03', 'Other device failures are distinguishable exceptions of the library',
  'Every other failing completion raises a subclass of AsiException; on Linux a reservation conflict status raises '
  'AsiReservationConflictError and host, driver and other status errors raise AsiSCSIError classes.',
  'inputs configurations', 'every status value on four platforms', 'Tests produce none of these statuses.', EF,
  [('error mapping', 'linux.py, solaris.py, aix.py, win32.py')], AI + ' with the kernel-written fields havocked',
  'Decides the exception class for all status values within the stated field ranges.' + TRUST)
P('E04', 'Operating system failures surface to the caller',
  'When the system call that submits or receives a command fails, the caller gets an exception; the outcome is taken from what '
  'the kernel wrote, never from the request as it was before the call.',
  'fault_sequences configurations', 'failure or success of each system call on five executers',
  'Tests do not fail the ioctl, and on a mock the buffer need not be the one the kernel sees.', EF,
  [('ioctl/read/write call sites', 'platform modules')], AI + ' with failing system calls and kernel write-back modelled',
  'Decides every path through the submission and completion code.' + TRUST)
P('E05', 'No code path ends in an undefined name, attribute or missing export',
  'On every platform the modules load, every global name used in any function is defined, every local variable has an assignment that '
  'can reach its use, every name a module exports or imports from a sibling exists, every attribute read from self, a module or a class of '
  'the package exists, every call of a package function fits its signature, and every field reference in a wire structure refers to a field that exists.',
  'programs configurations', 'every function, lambda, import and export of every module of the package',
  'A misspelled name in an error path is only noticed when that path runs.', '__init__.py cdb sense linux.py win32.py',
  [('module namespaces', 'src/infi/asi')], 'whole-package name resolution over the syntax tree and the abstractly loaded modules',
  'Decides resolution of every global name, local variable, export, sibling import, attribute of self, call signature and structure field reference.' + TRUST)
P('E06', 'Building and printing an error cannot fail',
  'For every error class of the library and any sense data, including missing or undecodable sense, constructing the error and '
  'converting it to text succeeds; a check condition text names the sense key and the additional sense code, or shows the raw '
  'sense bytes when they are undecodable.',
  'inputs', 'every error class; sense decoded with any key and code, or undecoded',
  'An error raised while formatting an error hides the original one; tests print one.', 'errors.py sense/__init__.py sense/asc.py',
  [('__str__/__repr__', 'errors.py')], AI + ' of the constructors and text conversions',
  'Decides every path for symbolic sense bytes.' + TRUST)

# ------------------------------------------------------------------------------------------------- memory
P('M01', 'The kernel is handed the real command, data and their lengths',
  'In every request passed to the kernel on Linux, Solaris, AIX and Windows each buffer pointer refers to memory that is kept '
  'alive for the whole exchange and is at least as long as the length passed with it; the command bytes and data-out bytes there '
  'are those of the request, and the response and sense buffers are writable. Commands that are '
  'outstanding at the same time do not share these buffers.',
  'inputs configurations', 'every command block length 6..16, every data length class, four platforms (five executers)',
  'A dangling pointer or a wrong length works by luck in a test.', 'linux.py solaris.py aix.py win32.py',
  [('SGIO/USCSICommand/sc_passthru/SPTD construction', 'platform modules')],
  AI + ' with a memory model: regions, ownership and pointer targets', 'Decides pointer target, length and lifetime for each request.' + TRUST)
P('M02', 'Data moves in the direction of the command and comes back complete',
  'A read command is submitted as device-to-host, a write command as host-to-device, a command without data as no transfer; a '
  'successful read returns exactly the bytes the kernel delivered (requested length minus residual where reported) and a write '
  'returns none.',
  'inputs configurations', 'every command kind and length class on every platform',
  'Tests mock the kernel away.', 'linux.py solaris.py aix.py win32.py', [('direction flags, result extraction', 'platform modules')],
  AI + ' with a memory model', 'Decides direction constants and returned windows.' + TRUST)
P('M03', 'Request structures match the kernel ABI',
  'The structures exchanged with the kernel have exactly the field order, offsets, widths and total size of sg_io_hdr (64-bit '
  'Linux), uscsi_cmd (Solaris), sc_passthru (AIX) and SCSI_PASS_THROUGH_DIRECT (Windows), and the ioctl request codes are the '
  'kernel\'s.',
  'configurations', 'every field of every request structure',
  'No test runs against the real kernel on four platforms.', 'linux.py solaris.py aix.py win32.py',
  [('ctypes/instruct structures', 'platform modules')], 'layout computation over the abstractly loaded classes against the frozen ABI',
  'Decides offset and width of each field.' + TRUST)
P('M04', 'Every request carries a finite timeout in the unit the kernel expects',
  'Every request handed to the kernel carries the caller\'s timeout, or the default of 30 seconds where none is given (10 '
  'seconds on Windows), in the unit of that interface; it is never zero or unlimited by default. The ready-made executer contexts use '
  'the default, and 3 seconds for a Linux sg device.',
  'inputs configurations', 'any caller timeout, four platforms',
  'A hung device is needed to see a missing timeout.', 'linux.py solaris.py aix.py win32.py', [('timeout fields', 'platform modules')],
  AI + ' with a symbolic timeout', 'Decides the value of the timeout field on each path.' + TRUST)

P('E07', 'The text of a device error names the status the device returned',
  'The text of the exception for a failed completion tells what the device or the host reported: on Linux the SCSI, host and driver '
  'statuses by number or sg_err.h name, on Solaris the status and reason by number, on AIX the SCSI and adapter status by name, on '
  'Windows the SCSI status by number. It never names a different status.',
  'inputs configurations', 'every failing status value on four platforms', 'Tests print no such error.', EF,
  [('error construction', 'linux.py, solaris.py, aix.py, win32.py')], AI + ' with the kernel-written fields enumerated',
  'Decides the text for all status values within the stated field ranges.' + TRUST)

# ------------------------------------------------------------------------------------------------- responses
RS = 'cdb/inquiry/standard.py cdb/inquiry/vpd_pages'
P('R01', 'Standard INQUIRY and VPD pages are decoded per SPC',
  'Every field of standard INQUIRY data and of the supported pages, unit serial number, block limits, logical block '
  'provisioning, ATA information and vendor C0h pages is taken from exactly the bits SPC/SBC assign to it, unsigned, for every content and whatever was decoded before.',
  'inputs', 'all byte values of the fixed parts; enumerated page lengths for the variable parts',
  'Tests decode a few captured pages; swapped bits look right on symmetrical captures.', RS, [('response structures', 'cdb/inquiry')],
  AI + ' of the decoders over a symbolic wire; bit provenance against the frozen layout', 'Decides the source bits of each attribute.' + TRUST)
P('R02', 'Device identification designators are decoded by type, size and association',
  'Each designator of VPD page 83h is decoded with the layout of its designator type, NAA and length, fields from the bits SPC '
  'assigns; reserved types (9h..Fh) keep their raw bytes and do not disturb the designators around them, EUI-64 sizes and NAA '
  'values that SPC does not define are refused with an error, never decoded as another kind.',
  'inputs', 'every defined designator type and its sizes, reserved types, several designators in one page; all other bytes symbolic',
  'Tests hold captures of a few designator types.', 'cdb/inquiry/vpd_pages/designators.py cdb/inquiry/vpd_pages/device_identification.py',
  [('designator structures and selector', 'cdb/inquiry/vpd_pages')], AI + ' over a symbolic wire', 'Decides the source bits of each attribute.' + TRUST)
P('R03', 'Enclosure (SES) pages are decoded per SES',
  'Every field of the configuration, enclosure status, element descriptor, supported pages and vendor pages comes from the bits '
  'SES assigns to it, each status element decoded with the layout of its own element type and attributed to the right type descriptor.',
  'inputs', 'all byte values with enumerated element types, counts and lengths', 'Tests decode one captured enclosure.',
  'cdb/diagnostic/ses_pages', [('SES structures', 'cdb/diagnostic/ses_pages')], AI + ' over a symbolic wire',
  'Decides the source bits of each attribute for the enumerated shapes.' + TRUST)
P('R04', 'Reservation, port group, LUN, capacity and copy responses are decoded per SPC',
  'Every field of PERSISTENT RESERVE IN, REPORT TARGET PORT GROUPS, REPORT LUNS, READ CAPACITY(10/16) and RECEIVE COPY OPERATING '
  'PARAMETERS responses comes from the bits SPC/SBC assign to it, unsigned, lists have as many entries as their length says, '
  'and LUNs with an addressing method the caller did not allow are refused, whatever other commands allowed.',
  'inputs', 'all byte values with enumerated list lengths', 'Tests decode one or no capture per command.',
  'cdb/persist/input.py cdb/rtpg.py cdb/report_luns.py cdb/read_capacity.py cdb/receive_copy_operating_parameters.py',
  [('response structures', 'src/infi/asi/cdb')], AI + ' over a symbolic wire', 'Decides the source bits of each attribute for the enumerated shapes.' + TRUST)
P('R05', 'Variable-length parts stay inside the length the device declared',
  'A part of a response (list, text, descriptor) whose extent the response declares in a byte-length field never includes bytes '
  'beyond it, even when the buffer holds more, and decoding always terminates, also with zero-length entries.',
  'inputs', 'every variable part with enumerated declared lengths and trailing symbolic bytes',
  'Captures have no trailing garbage.', 'cdb sense', [('variable-size fields', 'src/infi/asi/cdb, sense')], AI + ' over a wire with trailing bytes',
  'Decides the last wire byte each attribute depends on for the enumerated lengths; a step budget detects endless decoding.' + TRUST)
P('R06', 'Page and code registries agree with what they register',
  'For every page in the VPD and SES registries the command registered for a page requests that page, the data class registered for it is '
  'the one the command decodes with, the lookup functions return them, and unknown pages get a generic command and data class.',
  'inputs', 'every page code 0..255', 'Tests look up a few pages.', 'cdb/inquiry/vpd_pages/__init__.py cdb/diagnostic/ses_pages/__init__.py',
  [('SUPPORTED_* tables and get_* functions', 'vpd_pages, ses_pages')], 'enumeration of the abstractly evaluated registries',
  'Decides all 256 page codes.' + TRUST)
P('R07', 'A decoded response packs back to the bits it was decoded from',
  'Packing a decoded response (INQUIRY and VPD pages, designators, reservation data, element descriptors, supported and vendor diagnostic pages) '
  'puts every bit a decoded attribute was taken from back at its place, with lengths that count what follows, and nothing else but zeros.',
  'inputs', 'all byte values with enumerated counts and lengths; responses whose optional fields are all present',
  'Tests pack hardly any response.', 'cdb/inquiry cdb/persist cdb/diagnostic', [('set_before_pack, where_when_pack, pack_if and len_ref of the structures', 'src/infi/asi/cdb')],
  AI + ' of decoding followed by packing over a symbolic wire; bit provenance', 'Decides every packed bit of the enumerated shapes. Not covered: '
  'enclosure status and configuration pages, structures with absent optional fields (they cannot be packed).' + TRUST)
P('R08', 'Sense data is decoded by its response code',
  'Sense data with response code 70h/71h is decoded as fixed format and 72h/73h as descriptor format, sense key, ASC and ASCQ taken from the '
  'bytes SPC assigns; any other response code gives no decoded object.',
  'inputs', 'every response code; all other bytes symbolic; descriptor lists of enumerated types', 'Tests decode two captures.',
  'sense/__init__.py', [('get_sense_object_from_buffer', A + 'sense/__init__.py')], AI + ' over a symbolic wire',
  'Decides dispatch and source bits.' + TRUST)
P('R11', 'Truncated responses are reported, not misread',
  'A response that ends before the fields it declares is reported by an exception, or the fields whose bytes did not arrive are absent; it is never '
  'decoded to a value made of missing bytes. PERSISTENT RESERVE IN responses cut behind their header still tell the allocation length the complete response needs.',
  'inputs', 'truncation points of every response shape (quick: twelve per shape, thorough: all); all other bytes symbolic', 'There are no truncated captures but two.',
  'cdb/inquiry cdb/persist cdb/diagnostic cdb/rtpg.py cdb/read_capacity.py', [('unpack_if, fixed-size fields, required_allocation_length', 'src/infi/asi/cdb')],
  AI + ' of the decoders over a symbolic wire that ends early; bit provenance', 'Decides the value of every attribute for the enumerated shapes and '
  'truncation points, given the (validated) model of infi.instruct.' + TRUST)
P('R09', 'Additional sense codes translate to the assigned meaning',
  'For every ASC/ASCQ pair, assigned codes (including the ranges 40/NN, 4D/NN and 70/NN) translate to their T10 text, and unassigned '
  'or vendor codes to a text that is not that of another code and names both numbers; translating never fails and does not depend on what was translated before.',
  'inputs', 'all 65536 ASC/ASCQ pairs', 'Tests look up a few codes.', 'sense/asc.py', [('AdditionalSenseCode table', A + 'sense/asc.py')],
  'enumeration of the abstractly evaluated table against the frozen T10 assignment', 'Decides all 65536 pairs.' + TRUST)

P('R10', 'Code names agree with the standards',
  'The names this library gives to codes are the ones of the standards: peripheral device types and the other INQUIRY and VPD code '
  'tables (SPC), and SES element types, element status codes and fan speed codes (SES). A code is never given the name of another.',
  'inputs', 'every entry of every code table', 'Tests look up one or two codes.',
  'cdb/inquiry/vpd_pages/__init__.py cdb/inquiry/vpd_pages/designators.py cdb/diagnostic/ses_pages',
  [('code tables', 'cdb/inquiry, cdb/diagnostic')], 'enumeration of the abstractly evaluated tables against the frozen assignments',
  'Decides every entry.' + TRUST)

# ------------------------------------------------------------------------------------------------- coroutines, files
P('K01', 'Generator coroutines pass values and exceptions like calls',
  'Run through sync_wait, a chain of generator coroutines behaves like the same program written with ordinary calls: what a callee '
  'yields last (or the result of the operation it waits for) is what the caller\'s yield returns, None if it yields nothing; an '
  'exception raised in a callee or by an operation is raised, once and as the same object, at the yield that waits for it, may be '
  'handled there, and otherwise reaches the entry point. Every step happens once and in order.',
  'programs', 'all programs of a grammar of yields, calls, operations, raises, handlers, finally clauses and loops, up to 3 generators deep '
  '(4 thorough)',
  'Tests cover the plain success path.', 'coroutines/sync_adapter.py', [('Coroutine', A + 'coroutines/sync_adapter.py')],
  AI + ' of the scheduler on all small coroutine programs, compared with their direct-style meaning',
  'Decides all programs up to the stated depth.' + TRUST)
P('K02', 'sync_call and sync_wait run the work exactly once',
  'sync_call calls the given function exactly once, with the arguments given, and returns the final value of the generator it '
  'returns or raises its error; sync_wait runs the given generator exactly once. An executer wrapped in CommandExecuterAdapter '
  'passes each call, send and wait once through the wrapper, with its arguments and result unchanged.',
  'programs', 'functions that are plain or generators, succeeding or raising', 'Tests check only the result.',
  'coroutines/sync_adapter.py', [('sync_call, sync_wait', A + 'coroutines/sync_adapter.py')], AI + ' of the scheduler',
  'Decides call count and outcome.' + TRUST)
P('K03', 'Asynchronous waiting completes every command with its own result',
  'An asynchronous coroutine pauses exactly at the operations it waits for and asks each for its result once, after it completed. '
  'async_wait (Windows) runs every given command to its end whatever the order in which operations complete, waits only for '
  'operations in progress and for a bounded time, returns the results in the order of the commands, and raises when an operation '
  'fails unhandled or the wait itself fails.',
  'schedules fault_sequences', '1..3 commands of 0..2 operations that pend, end at once or fail, in every completion order; plus the programs of K01',
  'Tests never run more than one asynchronous operation.', 'coroutines/sync_adapter.py win32.py',
  [('AsyncCoroutine', A + 'coroutines/sync_adapter.py'), ('Win32AsyncReactor', A + 'win32.py')],
  AI + ' of reactor and scheduler with all completion orders of the modelled overlapped operations',
  'Decides all completion orders of the stated workloads.' + TRUST)
P('X01', 'Device files are closed on every exit of an executer context',
  'Every asi_context closes the device file it opened exactly once: after the body finishes, when the body raises, and when '
  'creating the executer fails. The executer works on that file, which is open while the body runs. The exception, if any, still '
  'reaches the caller, also when opening or closing fails.',
  'fault_sequences configurations', 'no failure, or failure at open, executer creation, command, body or close, for every platform context',
  'Tests never fail between open and close.', 'executers.py', [('context managers', A + 'executers.py')],
  AI + ' of the context managers with injected failures (typestate of the file)', 'Decides every exit path.' + TRUST)
P('X02', 'UnixFile transfers exactly what was asked or reports it',
  'UnixFile.write hands the caller\'s bytes once to its descriptor and returns how many were written; read returns what one read of '
  'the asked size delivered, only after the descriptor is ready, and raises when nothing arrives within the timeout (60 seconds by '
  'default), not much later; close closes the descriptor. All report errors of the operating system to the caller.',
  'fault_sequences inputs', 'arrival times, timeouts, late wake-ups, OS errors; any data and size', 'Tests mock the file.', 'unix.py', [('UnixFile', A + 'unix.py')],
  AI + ' with modelled system calls', 'Decides every path up to the loop bound.' + TRUST)
P('X03', 'Each platform gets its own executer and file type',
  'The platform factories return the executer and file type of the running platform: the given device opened read-write as it is '
  '(non-blocking on Solaris, shared on Windows, overlapped for asynchronous use, with the options of the caller where given) and an executer with the given options speaking that '
  'platform\'s interface. On an unsupported platform, and for asynchronous access outside Windows, they raise AsiException.',
  'configurations', 'every platform string', 'Tests run on one platform.', '__init__.py executers.py unix.py',
  [('create_platform_command_executer, create_os_file', A + '__init__.py')], AI + ' per platform string', 'Decides all platform strings given.' + TRUST)
P('X04', 'Blocking device calls yield to other greenlets',
  'Under gevent every blocking device operation of the executers is followed by a cooperative switch before its result is used, and '
  'without gevent the same calls are made and nothing else.',
  'configurations', 'every blocking call site, with and without gevent', 'Tests do not run under gevent.',
  '__init__.py unix.py linux.py solaris.py aix.py win32.py', [('gevent_friendly', A + '__init__.py')], AI + ' recording the order of effects',
  'Decides, per path, that a switch follows each blocking call.' + TRUST)
P('P01', 'Platform-independent modules load on every platform',
  'Importing the package, its command, sense, error and coroutine modules succeeds on every platform without loading another '
  'platform\'s libraries.',
  'configurations', 'every module on every platform', 'Tests run on one platform.', '__init__.py executers.py cdb',
  [('module imports', 'src/infi/asi')], AI + ' of module initialisation per platform', 'Decides all modules on four platforms.' + TRUST)

# ------------------------------------------------------------------------------------------------- declined
P('N02', 'Outstanding commands complete within the timeout',
  'A command whose device never answers is reported as failed after the timeout.',
  'schedules', 'every device behaviour', 'Needs a hung device.', 'linux.py unix.py', [('timeouts', 'linux.py, unix.py')], '', '', False)
NA.append(('N02', 'A timing property of the kernel and the device; the source only decides which timeout is passed (M04) and that the wait is bounded (X02).'))
P('N04', 'Concurrent greenlets sharing an executer never lose or swap responses',
  'Any number of greenlets may use one executer at the same time.',
  'schedules', 'every greenlet interleaving', 'No concurrent tests.', '__init__.py', [('CommandExecuterBase', A + '__init__.py')], '', '', False)
NA.append(('N04', 'The executers promise nothing for interleaved use from several greenlets (pending responses are consumed by whichever caller receives '
           'them); the sequential histories are decided in Q01..Q07.'))


def main():
    import subprocess, sys
    sys.path.insert(0, ROOT)
    sys.setrecursionlimit(20000)
    import importlib
    from sa import core
    for m in ('cdb', 'resp', 'queue', 'errs', 'mem', 'names', 'coro', 'files'):
        if os.path.exists(os.path.join(ROOT, 'sa', 'props', m + '.py')):
            importlib.import_module('sa.props.' + m)
    na = dict(NA)
    checks = []
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PS:
            d = {k: v for k, v in p.items() if not k.startswith('_')}
            f.write(json.dumps(d) + '\n')
            if p['id'] in na:
                continue
            if p['id'] not in core.PROPS:
                na[p['id']] = 'not built yet'
                continue
            checks.append({'property': p['id'],
                           'quick_cmd': 'python3 sa/check.py --property %s --tier quick' % p['id'],
                           'thorough_cmd': 'python3 sa/check.py --property %s --tier thorough' % p['id'],
                           'evidence_file': 'evidence/%s.json' % p['id'],
                           'technique': 'static analysis: ' + p['_t'], 'level': 'other', 'level_note': p['_n']})
    m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa spec', 'checks': checks,
         'not_applicable': [{'property': k, 'reason': v} for k, v in na.items()]}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')


main()
