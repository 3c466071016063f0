# Which harness checks decide which property, in which build of dav1d, and how many cases each tier generates.
def leg(name, variant, quick, thorough, **k): return dict(name=name, variant=variant, quick=quick, thorough=thorough, **k)
PIX = ['the model in model/ (written from the AV1 specification) defines the expected samples; it shares only the constant tables with dav1d, extracted once at development time']
CHECKS = {
 'C01': dict(legs=[leg('model', 'asm', 30000, 600000, cap_quick=55)], assumptions=PIX),
 'C02': dict(legs=[leg('model', 'asm', 25000, 480000, cap_quick=55)], assumptions=PIX),
 'C03': dict(legs=[leg('model', 'asm', 22500, 480000, cap_quick=55)], assumptions=PIX),
 'C04': dict(legs=[leg('model', 'asm', 30000, 600000, cap_quick=55)], assumptions=PIX),
 'C05': dict(legs=[leg('model', 'asm', 22500, 480000, cap_quick=55)], assumptions=PIX),
 'C06': dict(legs=[leg('model', 'c', 12500, 600000, cap_quick=55)], assumptions=PIX),
 'C07': dict(legs=[leg('model', 'c', 15000, 600000, cap_quick=55)], assumptions=PIX),
 'C08': dict(legs=[leg('model', 'asm', 22500, 600000, cap_quick=55)], assumptions=PIX),
 'C11': dict(legs=[leg('masks', 'asm', 7500, 320000, cap_quick=55)]),
}
CHECKS.update({
 'C09': dict(legs=[leg('schedules', 'sched', 6250, 240000, check='C09S', cap_quick=45), leg('threads', 'asm', 5000, 240000, cap_quick=30)]),
 'C10': dict(legs=[leg('schedules', 'sched', 10000, 400000, check='C10S', cap_quick=55), leg('threads', 'asm', 5000, 240000, cap_quick=30)]),
 'C12': dict(legs=[leg('sanitized', 'san', 6250, 400000, cap_quick=55), leg('fresh memory', 'c', 5000, 240000, check='C12D', cap_quick=30)]),
 'C13': dict(legs=[leg('accounts', 'c', 12500, 400000, cap_quick=30), leg('sanitized', 'san', 3000, 160000, cap_quick=30)]),
 'C14': dict(legs=[leg('faults', 'san', 10000, 400000, cap_quick=55)]),
 'C15': dict(legs=[leg('packets', 'c', 12500, 480000, cap_quick=45)]),
 'C16': dict(legs=[leg('flush', 'c', 12500, 480000, cap_quick=45)]),
 'C17': dict(legs=[leg('held', 'c', 10000, 400000, cap_quick=45)]),
 'C18': dict(legs=[leg('props', 'c', 12500, 480000, cap_quick=45)]),
 'C19': dict(legs=[leg('recovery', 'c', 12500, 480000, cap_quick=45), leg('isolation', 'c', 12500, 480000, check='C19I', cap_quick=45)]),
 'C20': dict(legs=[leg('settings', 'c', 15000, 480000, cap_quick=55)], assumptions=PIX),
 'C21': dict(legs=[leg('layers', 'c', 12500, 480000, cap_quick=55)], assumptions=PIX),
 'C22': dict(legs=[leg('buffers', 'san', 10000, 480000, cap_quick=30), leg('streams', 'c', 7500, 240000, check='C22B', cap_quick=30)]),
 'C23': dict(legs=[leg('settings', 'asm', 12500, 400000, cap_quick=45)]),
 'C24': dict(legs=[leg('events', 'c', 12500, 480000, cap_quick=45)], assumptions=PIX),
 'C25': dict(legs=[leg('allocators', 'asm', 7500, 320000, cap_quick=55)]),
 'C26': dict(legs=[leg('containers', 'asm', 10000, 400000, cap_quick=30, cli=True, case_limit=200), leg('malformed', 'sancli', 10000, 400000, cap_quick=30, check='C26M', case_limit=300)]),
 'C27': dict(legs=[leg('files', 'asm', 12500, 400000, cap_quick=55, cli=True, case_limit=200)]),
 'C28': dict(legs=[leg('options', 'asm', 12500, 400000, cap_quick=55, cli=True, case_limit=200)]),
 'C29': dict(legs=[leg('instances', 'asm', 3750, 160000, cap_quick=30, workers=6), leg('races', 'tsan', 1000, 40000, cap_quick=45)], racy=True),
 'C30': dict(legs=[leg('races', 'tsan', 1750, 80000, cap_quick=55)], racy=True),
})
CHECKS.update({
 'C31': dict(legs=[leg('rounds', 'c', 10000, 400000, cap_quick=55)]),
 'C32': dict(legs=[leg('grain', 'asm', 20000, 480000, cap_quick=55)], assumptions=PIX),
 'C33': dict(legs=[leg('additions', 'c', 20000, 480000, cap_quick=55)]),
 'C35': dict(legs=[leg('trimmed', 'trim', 6000, 240000, cap_quick=22), leg('8 bit only', 'only8', 6000, 240000, cap_quick=22), leg('16 bit only', 'only16', 6000, 240000, cap_quick=22)], assumptions=PIX),
 'C37': dict(legs=[leg('forbidden', 'c', 12000, 480000, cap_quick=50)], assumptions=PIX),
 'C36': dict(legs=[leg('objects', 'san', 10000, 400000, cap_quick=50)]),
 'C34': dict(legs=[leg('messages', 'san', 10000, 400000, cap_quick=55)]),
})
_M = 'differential: generated conforming streams against an independent decoder model'
TECH = {
 'C01': _M, 'C02': _M, 'C03': _M, 'C04': _M, 'C05': _M, 'C06': _M, 'C07': _M + ' (header fields, metadata)', 'C08': _M + ' with grain synthesis',
 'C09': 'metamorphic over schedules: deterministic scheduler (random walk / PCT) and real threads against single-threaded output',
 'C10': 'schedule fuzzing with deadlock detection under a deterministic scheduler; API histories with real threads under a time limit',
 'C11': 'differential: CPU feature masks against portable C on generated streams',
 'C12': 'structure-aware fuzzing (mutated, spliced and random OBUs) with AddressSanitizer/UBSan; repeat runs with poisoned heap',
 'C13': 'stateful property-based testing: generated API histories against an account of every buffer, picture and heap block',
 'C14': 'fault injection at generated positions, with sanitizers, leak accounts and recovery against a reference decode',
 'C15': 'metamorphic: generated packetisations and call orders against whole-unit feeding',
 'C16': 'stateful property-based testing: flush at generated points against a new decoder',
 'C17': 'stateful property-based testing: held pictures compared with copies over generated histories',
 'C18': 'model-based: generated packet properties followed through generated streams',
 'C19': 'metamorphic: generated damage followed by a clean sequence against a new decoder',
 'C20': 'model-based and metamorphic: generated settings and streams against the model run with the same setting',
 'C21': _M + ' (operating points and layers)',
 'C22': 'structured fuzzing of OBU buffers against a reference parser and the decoder',
 'C23': 'property-based testing of generated settings and argument values against the documented ranges',
 'C24': 'model-based: generated sequence histories against the expected event of each picture',
 'C25': 'metamorphic: generated allocator layouts with guard areas against the built-in allocator',
 'C26': 'metamorphic: generated streams in each container through the command line tool; generated malformed files under sanitizers',
 'C27': 'differential: written files against independent writers and checksums of the library output',
 'C28': 'model-based: generated command lines against library runs with the settings they name',
 'C29': 'concurrent generated instances against solo runs, and ThreadSanitizer',
 'C31': 'stateful property-based testing: repeated generated rounds with accounts of memory, buffers and pictures after each',
 'C32': _M + ', grain applied by separate calls',
 'C33': 'metamorphic: generated ignorable additions to generated streams',
 'C34': 'metamorphic: generated damaged and unusual streams under three logger settings, output streams captured',
 'C37': 'metamorphic and model-based: forbidden header values put between the frames of generated streams',
 'C36': 'stateful: random sequences of packet, picture and property operations over one or two decoders, with books on every reference',
 'C35': _M + ', in builds with other options',
 'C30': 'ThreadSanitizer over generated streams, thread settings and API histories',
}
_n = 'Evidence from generated cases only: it holds on what was generated (see the evidence file), not for all inputs. '
NOTE = {k: _n + v for k, v in {
 **{k: 'The expected samples come from a model written from the AV1 specification in /verif/model, which shares only constant tables with dav1d; frames are small (mostly up to 200x200 samples).' for k in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C21', 'C20', 'C24')},
 'C09': 'Interleavings are sampled at every lock, condition and atomic operation of the worker threads; weak memory effects are not modelled.',
 'C10': 'A deadlock is a state in which no thread can run; interleavings are sampled at every lock, condition and atomic operation.',
 'C11': 'x86 masks up to what the host CPU offers.', 'C12': 'Only what AddressSanitizer, UBSan and the assertions of the portable C build can see; the assembly is only covered by C11 and C25.',
 'C13': 'Blocks are counted at the allocation functions dav1d calls.', 'C14': 'Faults: heap allocation, thread, mutex and condition creation, picture allocator callback.', 'C15': 'Splits are at OBU boundaries.', 'C16': 'Compared against a fresh decoder of the same build, which C01-C08 compare with the model.', 'C17': 'Compares samples, headers and metadata.', 'C18': 'The packet of a frame is the one that holds its first tile group.', 'C19': 'Damage is generated by mutating, dropping, repeating, reordering and splicing OBUs and packets.', 'C22': 'The reference parser is the model header writer of the generator.', 'C23': 'Ranges from include/dav1d/dav1d.h.', 'C25': 'Guard areas around every plane.', 'C26': 'Files up to a few hundred KB.', 'C27': 'Writers in the harness are independent of tools/output.', 'C28': 'Compared with the library of the same build.',
 'C31': 'Growth is judged over 9 rounds (22 with threads, with slack for buffer pools).', 'C32': 'The instance that applies grain has decoded video of that bit depth before.', 'C33': 'Reserved OBU types 0 and 9-14; tile lists are left out.', 'C35': 'Three option sets: trimmed without logging, 8 bit only, 16 bit only without assembly and logging.', 'C37': 'Nineteen forbidden values, six that only strict mode refuses.', 'C36': 'One decoder call at a time; the threads of one or two instances run freely.', 'C34': 'Capturing covers file descriptors 1 and 2.',
 'C29': 'Races are only seen on executed schedules.', 'C30': 'Races are only seen on executed schedules; ThreadSanitizer build of the portable C code.'}.items()}
NA = {}
