KB='src/keyboard.c'
TESTS='The test suite replays some eighty fixed event sequences against one configuration; '
SB='Exhaustive over the symbolic inputs within the stated bounds (counts of events, delays 0-511 ms, the listed configurations); trusts clang IR, the executor in kse/ (validated by native replay of sampled paths and counterexamples) and its SAT/SMT back ends. '
p('E01','No key stays down once everything is released',
 'Whatever keys were struck and whenever, once every physical key has been released and all timers have run, no virtual key other than a modifier of a layer that is still active (toggled or pending as oneshot) is held down, and no timer keeps running.',
 'histories configurations','every order and timing of key presses and releases over a few keys, for every pair of actions and every action next to a chord',
 TESTS+'a key left stuck needs a particular interleaving of releases, timeouts and layer changes which no fixed sequence covers.',
 KB,'send_key@src/keyboard.c process_descriptor@src/keyboard.c handle_chord@src/keyboard.c handle_pending_key@src/keyboard.c',
 SB+'All unordered pairs of 28 actions with 4 (thorough 5) key events on 3 keys; every action next to a chord with 4 (5) events; 25 nested actions with 4 (5); a tap/hold key next to a chord with 6 (7). Commands are outside.')
p('E02','A key produces the binding of the layer that takes precedence',
 'A key press is interpreted by the most recently activated active layer that binds the key, the main layer being the least recent and a layout the next; an active composite layer (all constituents active) binding the key takes precedence over all of them, the one with most constituents first; a key bound nowhere stands for itself.',
 'configurations histories','every subset of active layers in every order of activation and every subset of them binding the key, for six plain and three composite layers',
 TESTS+'a handful of layer combinations are visited, none exhaustively.',
 KB,'lookup_descriptor@src/keyboard.c activate_layer@src/keyboard.c',
 SB+'One key press from an arbitrary keyboard state over 9 layers; plain key bindings.')
p('E03','Modifiers accompanying a key are exactly the expected ones',
 'When a bound key is produced, the modifiers held at that moment are exactly the explicit modifiers of the binding together with those of every active layer except the one (or the constituents of the composite one) the binding comes from, so that layer modifiers never leak into explicit bindings; after the key is released exactly the modifiers of the active layers are held.',
 'configurations histories','every combination of active layers, layer modifiers, explicit modifiers and modifiers held before',
 TESTS+'the combinations of layer modifiers, explicit modifiers and previously held modifiers are exponential.',
 KB,'update_mods@src/keyboard.c set_mods@src/keyboard.c clear_mod@src/keyboard.c',
 SB+'One press (and release) from an arbitrary keyboard state over 9 layers with arbitrary 5-bit modifier sets, of a key bound to a key sequence or to overload(), overloadt(), overloadt2(), overloadi(), timeout() or macro() producing it.')
p('E04','A key keeps until its release the meaning it had when pressed',
 'The release of a key undoes exactly what its press did, whatever layers, layouts or other keys changed in between; redundant presses and releases (two keyboards, faulty hardware) have no effect.',
 'histories','every history of up to 6 (thorough 7) key events with arbitrary delays over layer, toggle, layout and plain keys, and every history of 4 (5) events in which presses and releases may be redundant',
 TESTS+'changes between a press and its release are tried for few combinations and redundant events hardly at all.',
 KB,'cache_get@src/keyboard.c cache_set@src/keyboard.c process_event@src/keyboard.c',
 SB+'Reference account of layers and bindings (harness/life.c, palette 5) compared after every event.')
p('E05','Layers are active exactly while held, toggled or pending',
 'A layer() key activates its layer while held; toggle() flips it; clear() ends toggled and pending layers; setlayout() replaces the layout and resets toggles; activations reported to listeners always balance deactivations; a layer held by several keys stays active until the last is released.',
 'histories configurations','every history of up to 5-6 (thorough 7) key events over layer, toggle, clear and setlayout keys and every assignment of bindings to layers',
 TESTS+'few interleavings of layer keys are covered.',
 KB,'activate_layer@src/keyboard.c deactivate_layer@src/keyboard.c setlayout@src/keyboard.c clear@src/keyboard.c',
 SB+'Reference account (harness/life.c, palettes 1 and 2) compared after every event: keys produced, modifiers, layer states, notifications.')
p('E06','A oneshot layer applies to exactly the next key',
 'A tapped oneshot key activates its layer for exactly the next key press (or until the oneshot timeout), a held one acts as a layer key; oneshot modifiers accompany that one key only, several oneshots accumulate, and activations balance.',
 'histories schedules','every history of up to 5 (thorough 6) key events with arbitrary delays over two oneshot keys, layer, toggle, clear and plain keys, with and without a timeout',
 TESTS+'expiry and interleavings with other keys are covered by a few fixed sequences.',
 KB,'clear_oneshot@src/keyboard.c process_descriptor@src/keyboard.c',
 SB+'Reference account (harness/life.c, palette 3); pressing one oneshot key while another is held is outside the claim.')
p('E07','overload() taps produce the tap key, holds only the layer',
 'A key bound with overload() activates its layer while held; its tap action is produced, exactly once, on release and only if no other key was struck meanwhile and, with a tap timeout configured, only if the key was held for less than it.',
 'histories schedules','every history of up to 6 (thorough 7) key events with arbitrary delays over two overload keys, a layer, a oneshot and a plain key, with and without overload_tap_timeout',
 TESTS+'timing is sampled at single values.',
 KB,'process_descriptor@src/keyboard.c',
 SB+'Reference account (harness/life.c, palette 4).')
p('E08','Timed tap/hold keys are decided exactly by their deadline',
 'A key bound with overloadt(), overloadt2() or timeout() is resolved as a tap or a hold by exactly the documented rule - released before or held past its timeout, or interrupted - and the keys struck while it is undecided are afterwards produced once each, in order, as that decision implies.',
 'histories schedules configurations','every history of up to 6 (thorough 7) key events with arbitrary delays, symbolic timeouts, one timed key, or two at once (5/6 events)',
 TESTS+'a fixed timeout and few delays are used; the boundaries and the replay of queued events cannot be covered by samples.',
 KB,'handle_pending_key@src/keyboard.c calculate_main_loop_timeout@src/keyboard.c',
 SB+'Reference account (harness/timed.c). Known finding: the deadline of a second timed key struck while a first is undecided (pinned by an existing test).')
p('E10','Chords are recognised exactly, or their keys delivered untouched',
 'Keys of a chord struck within the chord timeout of each other produce the action of the chord exactly once, held until its last key is released; otherwise the keys are delivered individually, in order and none lost, as are other keys struck meanwhile.',
 'histories schedules','every history of up to 6 (thorough 7) key events with arbitrary delays over overlapping two- and three-key chords with and without a hold timeout',
 TESTS+'chord timing is sampled at a few values.',
 KB,'handle_chord@src/keyboard.c resolve_chord@src/keyboard.c check_chord_match@src/keyboard.c',
 SB+'Reference account (harness/chord.c). Known finding: redundant presses of a held chord key.')
p('E11','Macros type exactly what they say, and repeat as configured',
 'Running a macro emits exactly its key presses and releases in order: each step with its modifiers held around it, key groups held together and released at the end of the group, unicode characters as a cancel key and three base 36 digits, pauses as given; while its key alone is held it repeats first after the macro timeout and then at the repeat timeout (an interval of 0 disables it), and any other key event ends the repetition.',
 'inputs histories schedules','every macro of up to 3 (thorough 4) steps with arbitrary keys and modifiers; every history of 4 (5) key events with arbitrary timeouts and delays',
 TESTS+'a few macros are executed and repetition is tested at single timings.',
 'src/macro.c src/unicode.c '+KB,'macro_execute@src/macro.c unicode_get_sequence@src/unicode.c schedule_macro@src/keyboard.c',
 SB+'Pauses take concrete sample values (the code multiplies them by a floating-point constant).')
p('E09','overloadi() and lettermod() decide by idle time exactly',
 'overloadi(a, b, T) acts as its first action if a key without modifiers (other than shift) was pressed or released less than T ms before, as its second otherwise, and ends the chosen action with the key; lettermod() does exactly what its documented expansion does.',
 'histories schedules','every history of 5 (thorough 6) key events with arbitrary delays and idle timeout; every history of 4 (5) events for the expansion',
 TESTS+'idle timing is sampled at single values.', KB+' src/config.c','process_descriptor@src/keyboard.c parse_descriptor@src/config.c', SB+'Reference account (harness/misc.c).')
p('E12','swap() hands its layer over for as long as it would have lasted',
 'A swap key bound in a layer replaces that layer by another one: a toggled layer by a toggled one, a pending oneshot by a pending oneshot, a layer held by a key by the new layer until that key is released; activations balance, and the keyboard never aborts.',
 'histories','every history of up to 6 (thorough 7) key events over layer, toggle, oneshot, overload, swap and plain keys, with and without a macro',
 TESTS+'a dozen sequences involve swap.', KB,'process_descriptor@src/keyboard.c', SB+'Reference account (harness/swap.c). Which of several keys holding the layer gives way is unspecified.')
p('E13','Alt and meta are not tapped as a side effect',
 'Whenever alt, altgr or meta would be released with no other key pressed since, a control tap is interposed, unless control is held, the key is a plain layer key struck alone, or the guard is disabled; nothing is interposed otherwise.',
 'histories configurations','every history of 4 (thorough 5) key events over eight keys using these modifiers in layer, overload, oneshot, toggle, layerm and key sequence bindings',
 TESTS+'most tests show the guard off.', KB,'clear_mod@src/keyboard.c', SB+'Delays of 20 and 150 ms.')
p('E14','Wake-ups and batching do not change what is typed',
 'A superfluous wake-up at any moment changes nothing, all timers due at a moment are served, and events handed over in one batch act as when handed over one at a time.',
 'schedules histories','every history of 3-4 (thorough 4-5) key events with arbitrary delays over each of 11 actions with and without a chord, with a wake-up at any moment',
 'Tests run in batches only and timers never coincide.', KB,'kbd_process_events@src/keyboard.c calculate_main_loop_timeout@src/keyboard.c process_event@src/keyboard.c', SB+'Two symbolic runs are compared.')
p('E15','The limits of the engine are safe',
 'However many keys are held, events queued behind an undecided key or chord, chords held, timers pending or layers activated, the keyboard never aborts or corrupts memory, keys come out in order, nothing sticks, and timers still fire.',
 'histories resources','each limit exceeded by any amount within a range, with arbitrary delays and orders of release',
 'Tests never come near the limits.', KB,'schedule_timeout@src/keyboard.c handle_pending_key@src/keyboard.c resolve_chord@src/keyboard.c enqueue_chord_event@src/keyboard.c cache_set@src/keyboard.c', SB+'Regular key patterns of up to 280 events.')
p('E16','Live bindings last until reset and spare keys held',
 'A binding added at runtime takes effect for the next press of its key in its layer, an invalid one is refused without effect, a key held keeps what its press produced, and reset restores exactly the bindings of the file.',
 'histories','every history of 5 (thorough 6) steps of bindings, resets and key events', 'Live bindings are not tested.', KB+' src/config.c','kbd_eval@src/keyboard.c config_add_entry@src/config.c', SB+'Reference account (harness/misc.c).')
p('E17','An unbound key reaches the output as itself',
 'With an empty configuration every physical key produces itself, pressed with the press and released with the release (each modifier key its modifier), and internal pseudo keys never reach the virtual keyboard; whatever is bound, key downs and ups reaching it alternate.',
 'inputs histories configurations','all 255 key codes; every history of 3-4 (thorough 5) key events over every pair of 27 actions and every action next to a chord', 'No test enumerates the key codes or pairs of actions.',
 KB+' src/keys.c','lookup_descriptor@src/keyboard.c send_key@src/keyboard.c', SB+'All key codes except the three reserved for chords; macros of several steps are outside the alternation claim.')
p('E18','A command is run once for each press, apart from keyd',
 'Each press of a key bound to command(), as a plain binding, a chord, a tap or the outcome of an undecided key, runs exactly its command once, by the shell and with the null device as its standard input and output, in a process which keyd neither waits for nor leaves behind; a process which cannot run its command ends; keyd itself goes on whatever fails, and no other key runs anything.',
 'inputs histories faults','every history of 4 (thorough 5) key events over commands bound plainly, in a layer, to a chord, as a tap and behind a timeout, with the outcome of every fork, of opening the null device and of executing the shell chosen by the solver', 'No test runs a command.',
 KB,'execute_command@src/keyboard.c process_descriptor@src/keyboard.c', SB+'fork, wait, exec and the descriptors 0-15 are modelled; each process is a path of its own.')
CF='src/config.c src/ini.c src/string.c'
CT='The test suite never parses anything but one fixed configuration; '
CB='Exhaustive over the symbolic text within the stated bounds; trusts clang IR, the executor in kse/ (validated by native replay) and its SAT/SMT back ends, the in-memory file system. '
p('C01','Any configuration file is handled without memory errors or aborts',
 'Parsing any configuration file, however malformed or oversized, ends with either acceptance or a refusal: no crash, failed assertion, out-of-bounds access or leaked file; in an accepted configuration every layer, macro, command, nested action and chord an action refers to exists.',
 'inputs','arbitrary bytes in each of 20 syntactic positions, arbitrary punctuation inside actions, and counts around each capacity limit',
 CT+'malformed text and files at the capacity limits are not tested at all.',
 CF+' src/macro.c src/keys.c','config_parse@src/config.c ini_parse_string@src/ini.c parse_descriptor@src/config.c',
 CB+'Holes of 2 (thorough 3) arbitrary bytes; 4 (5) characters of punctuation after an action name; 14 capacity limits.')
p('C02','A binding affects exactly its key in its layer',
 'A line `key = action` or `layer.key = action` binds every key the name stands for in that layer, replacing its earlier binding, and changes nothing else in the configuration; it is refused, leaving everything as it was, if the layer, key or action does not exist. A chord replaces only the chord of the very same keys.',
 'inputs histories','every combination of 7 layers, 12 key names and 19 actions; every sequence of 3 (thorough 4) chord bindings over 4 keys',
 CT+'bindings which overwrite one another or are refused are not examined.',
 CF,'config_add_entry@src/config.c set_layer_entry@src/config.c layer_lookup_chord@src/config.c',
 CB+'The whole struct config is compared before and after.')
p('C03','An action means what it says',
 'Every action (old names and lettermod included) accepts exactly its documented arguments, in number, order and kind - layers, layouts, numbers, key sequences, macros, nested actions - and denotes exactly the operation named with those arguments; a left modifier or right alt used as an action is its layer; a command is stored whole or refused.',
 'inputs','every action, nested up to depth 2 (thorough 3), with every choice of arguments and all numbers of up to 2-4 digits; every number of arguments with any one replaced by each of 20 texts; commands of 24 lengths',
 CT+'most actions appear with one set of arguments.',
 CF,'parse_descriptor@src/config.c parse_fn@src/config.c',
 CB+'The expected action is built beside the text and compared field by field.')
p('C04','Key names and modifiers denote the keys they name',
 'Every key name, alternative name and shifted name denotes its key (the shifted one with shift); <mod>- prefixes add exactly their modifiers; anything else is refused; every printed modifier set reads back as itself.',
 'inputs','every string of up to 18 (thorough 24) arbitrary bytes, with up to 2 (3) arbitrary prefixes; every modifier set',
 'The names of a few keys occur in tests.', 'src/keys.c src/keys.h','parse_key_sequence@src/keys.c parse_modset@src/keys.c modstring@src/keys.c',
 CB+'Oracle: the table of documented key names and Linux codes in lib/keynames.h.')
p('C05','A macro expression denotes exactly the steps it spells out',
 'macro(...) denotes, in order, exactly the key sequences, simultaneous key groups, pauses, typed text and unicode characters it spells out; invalid expressions are refused.',
 'inputs','macros of up to 2 (thorough 3) tokens of every kind with arbitrary digits, characters and code points',
 'A handful of macros are tested.', 'src/macro.c src/unicode.c','macro_parse@src/macro.c parse_macro_expression@src/config.c',
 CB+'Text tokens of 2-3 characters; unicode over 2 ranges of consecutive code points.')
p('C06','A configuration applies exactly to the devices its ids name',
 'A device is matched by a configuration exactly if an [ids] entry (of its kind, for k: and m:) is a prefix of its id, or if the file has a wildcard, the device is a keyboard, and no - entry excludes it; an explicit match takes precedence over a wildcard.',
 'inputs','every list of 2 (thorough 3) ids of each kind and up to 3 characters, alone or after the first 17 of a full id, with or without a wildcard, every device id of the same form of each kind',
 'Device matching is not tested.', CF,'config_check_match@src/config.c parse_id_section@src/config.c', CB)
p('C07','An alias stands for each of its keys',
 'After `key = name` in [aliases], the name stands for every key so aliased (also when it is the name of another key), later bindings of it affect precisely those keys, and a key aliased to a valid key name produces that key where it is not bound.',
 'inputs histories','every sequence of 2 (thorough 3) aliases over 4 keys and 8 names (two of them at and beyond the length limit), with 10 bindings in 2 layers, before or after [main]',
 'Aliases are not tested.', CF,'parse_alias_section@src/config.c lookup_keycode@src/config.c', CB)
p('C08','Text and unicode characters are decoded and composed exactly',
 'Every code point is decoded from its UTF-8 form, malformed text is never read past its end, and each character typed by a macro is typed by the compose sequence the shipped compose file assigns to it.',
 'inputs','every three-character text over all code points, every string of 5 bytes, every row of the compose table, every index',
 'A few characters are tested.', 'src/string.c src/unicode.c data/keyd.compose','utf8_read_char@src/string.c unicode_lookup_index@src/unicode.c unicode_get_sequence@src/unicode.c', CB)
p('C09','An include line stands for the text of the file',
 'A line `include file` has the effect of the lines of that file (sought relative to the including file and then in the data directory); missing or .conf files are skipped; lines and files up to the limits are taken whole and larger ones refused.',
 'inputs','every file of up to 2 (thorough 3) lines of 11 kinds with three included files, terminated or not, delivered in pieces; sizes, and numbers of entries and sections, around the limits',
 'Files are never included in tests.', CF,'read_file@src/config.c resolve_include_path@src/config.c', CB)
p('C10','A heading defines its layer once, with its type and modifiers',
 'Every distinct valid heading [name], [name:mods], [name:layout], [a+b] defines one layer of that type, with those modifiers and constituents; repeated headings add bindings to it; a composite of unknown layers or an invalid type is refused; main and the five modifier layers always exist.',
 'inputs histories','every sequence of up to 3 (thorough 4) headings out of 18 with a binding in each',
 'One configuration is used by all tests.', CF,'config_add_layer@src/config.c config_init@src/config.c', CB)
p('C11','The structure of a configuration file is read exactly',
 'Lines are trimmed; blank and # lines are ignored; [x] starts a section; any other line is an entry of the current section whose key precedes the first = (not at its start) and whose value follows it, with its line number.',
 'inputs','every text of up to 5 (thorough 6) arbitrary characters, in a section or before one; every line of 6 (8) bytes',
 CT+'unusual spacing and punctuation are not tested.', 'src/ini.c src/string.c','ini_parse_string@src/ini.c parse_kvp@src/ini.c', CB)
p('C12','Options have the values given, or their defaults',
 'Every [global] option has exactly the last value given for it, or its default; options without a value and unknown options are ignored and affect nothing.',
 'inputs histories','every sequence of up to 2 options out of 12, in every form, with values of up to 4 (thorough 6) digits',
 'One set of options is used by all tests.', CF,'parse_global_section@src/config.c', CB)
p('C13','The shipped layouts type the characters they are written with',
 'With any layout of layouts/ included and made the default, every key it lists types the character written beside it, in each position it has (plain, shift, altgr, both, in either order): characters of the US keyboard by their key with exactly the shift state they need, all others by their compose sequence of data/keyd.compose with no modifier held; every line of a layout is a heading or a binding with a character, the shifted position of a letter a-z is its capital, keys rolled over one another each type theirs, and nothing is left held.',
 'inputs histories','every layout, position and (symbolic) key, alone and followed by any second key pressed before one key (thorough: five keys) is released, quickly or slowly',
 'No layout is parsed by any test, and there are some 14000 bindings.', CF+' src/keyboard.c src/macro.c src/unicode.c','config_parse@src/config.c kbd_process_events@src/keyboard.c parse_macro_expression@src/macro.c', CB+'Bindings to private or unassigned code points (17, which no sequence exists for) are not judged.')
DM='src/daemon.c src/evloop.c'
DT='The test suite drives the engine with a virtual device and never touches the daemon, its event loop or devices; '
DB='Exhaustive over the stated histories and symbolic values; the system calls are modelled (harness/dmn.h, harness/loop.c, harness/dev.c) and, in the daemon checks, the engine is a stand-in which records its events; trusts clang IR, the executor in kse/ (validated by native replay) and its SAT/SMT back ends. '
p('D01','Input events of a device are interpreted exactly',
 'Every event the kernel reports for a device becomes exactly one keyd event - the press or release of the key with that code, relative or absolute movement, a step of the wheel, a LED request, the removal of the device - or none if keyd has no meaning for it; never something left over from an earlier event, a crash or a division by zero; absolute positions are scaled over the range of their axis.',
 'inputs histories','every event type, code and value (symbolic 16/16/32 bits) and every axis range, in every sequence of two events, on a device of every kind',
 DT+'codes without a meaning, degenerate axis ranges and failing reads cannot be sampled exhaustively.',
 'src/device.c','device_read_event@src/device.c',
 DB+'Sequences of two events.')
p('D02','Devices are recognised by their capabilities and identified stably',
 'A device is a keyboard or a mouse exactly if it has the keys or axes which make it one, keyd\'s own virtual devices are recognised, its id is made of its vendor, product and a hash of its capabilities and name, and a device which cannot be queried is skipped without leaking its descriptor; all devices present at the start and every device announced later are found, up to the limit.',
 'inputs faults','every set of the key and axis bits that matter, every vendor and product, names of every length, a failure of any of the queries; every set of directory entries up to and beyond the limit of devices; every announcement',
 DT+'devices are never opened in tests.',
 'src/device.c','resolve_device_capabilities@src/device.c device_init@src/device.c',
 DB)
p('D03','Exactly the devices a configuration is for are taken over',
 'Of all devices present, plugged in or unplugged, exactly those some configuration matches (a wildcard not matching mice) are grabbed, each serviced by the keyboard of its best matching configuration; keyd\'s own devices and those which cannot be grabbed are left alone, unparsable configurations are skipped, and a failed grab leaves the device as it was; devices beyond the limit of 64 are closed and left alone.',
 'configurations faults histories','three devices of every kind, every outcome of matching two configurations, one of them possibly invalid, any device failing to be grabbed, devices added and removed; 61 to 68 devices',
 DT+'matching is never exercised with devices.',
 DM+' src/device.c','manage_device@src/daemon.c lookup_config_ent@src/daemon.c load_configs@src/daemon.c device_grab@src/device.c evloop@src/evloop.c', DB)
p('D04','Any client gets exactly one answer and can do no harm',
 'Whatever a client sends - any type, size, pause or text, complete or not, at once or in pieces, then closing, resetting or stalling - keyd keeps running, does exactly what was validly asked and nothing otherwise (texts of 4096 bytes and more and pauses over one second are refused), answers every complete request with exactly one reply saying whether it succeeded and why not, and closes the connection exactly once, unless the client listens.',
 'inputs faults histories','every type and pause (32 bit), sizes 0, 1, 3, 4095, 4096 and anything larger (64 bit), requests cut at three places, delivered in pieces, replies which cannot be written, failing actions, in every sequence of 2 (thorough 3) clients',
 DT+'the socket is never used in tests.',
 'src/daemon.c','handle_client@src/daemon.c send_fail@src/daemon.c send_success@src/daemon.c', DB+'Macro parsing, typing and bindings are stand-ins here (see D05, E11, E16).')
p('D05','What a client asks to type is typed exactly',
 'keyd input types each character of its text, in order, as the key (with shift if need be) or compose sequence it denotes, and keyd do runs the macro given, with the pauses asked for; every key struck is released; text which cannot be typed is reported.',
 'inputs','every text of 2 (thorough 3) characters, each any ASCII character or a two-, three- or four-byte, known or unknown one; macros of 2 (3) tokens of nine kinds',
 DT+'typing on request is never tested.',
 'src/daemon.c src/macro.c src/string.c src/unicode.c src/keys.c','input@src/daemon.c handle_client@src/daemon.c', DB+'Malformed UTF-8 is outside (see C08).')
p('D13','Listeners are told every layer change, in order',
 'A listening client is first told the layout and the active layers of the keyboard in use and then every later change of a layer or layout, each in full and in order; one which does not read or has gone is dropped without disturbing the others; at most 32 listen at once and a place freed can be used again; commands run by keyd do not keep its connection open; with layer_indicator the LED of exactly the keyboards concerned is lit while any layer is active.',
 'histories faults','every history of 4 (thorough 5) layer changes (with names of every length), key events, other clients and up to three listeners, each failing after 0, 20 or 70 bytes or not; 30 to 34 listeners',
 DT+'listening is never tested.',
 'src/daemon.c','add_listener@src/daemon.c on_layer_change@src/daemon.c', DB)
p('D06','Nothing outlives a reload or the removal of a device',
 'After a reload every device is serviced by freshly read configurations, no key is left down, nothing refers to the discarded keyboards, and the client is told; when a device is removed the keys held on it are released.',
 'histories','every history of 4 (thorough 5) key events, reloads, foreign mouse events, scrolls and pauses; every history of 5 (7) key events and removals over two keyboards sharing a configuration or not',
 DT+'reload is never tested, and its danger lies in what was going on before.',
 DM,'reload@src/daemon.c free_configs@src/daemon.c clear_vkbd@src/daemon.c event_handler@src/daemon.c', DB+'A symbolic key out of four representative codes.')
p('D07','Backspace, enter and escape together end the daemon, nothing else does',
 'Holding backspace, enter and escape at the same time, on any physical keyboards, terminates keyd so that a user can always regain control; no other input does.',
 'histories inputs','every history of 4 (thorough 5) events - keys (symbolic code and state) on either keyboard, LED requests and movements with arbitrary contents',
 DT+'the sequence is not tested.',
 'src/evloop.c','panic_check@src/evloop.c evloop@src/evloop.c', DB)
p('D08','A keyboard is woken up when it asked to be',
 'Whatever happens meanwhile - events of other keyboards or mice, clients, spurious wake-ups, slow processing - a keyboard which is waiting for a timeout is woken no later than when it expires, and its timers are never lost, also with several keyboards.',
 'schedules histories','every history of 2-3 (thorough 3-4) events out of 7 kinds with one or two keyboards and arbitrary (6-bit) timeouts',
 DT+'only the engine\'s own timers are exercised.',
 DM,'event_handler@src/daemon.c evloop@src/evloop.c', DB+'Delays between events are 0 or 7 ms or the timeout itself.')
p('D11','Pointer and scroll events are passed on faithfully',
 'Movement of a managed device reaches the output unchanged, or, while scroll() is active, as one scroll step per unit of the sensitivity, nothing being lost to rounding (a scroll() key turns this on while held, a scrollt() key until it is struck again); each step of the wheel strikes the scroll key of its direction; devices which are not managed produce nothing, except that their buttons and wheels interrupt pending actions of the active keyboard.',
 'inputs histories','every history of 3 (thorough 4) movements, scrolls and keys with arbitrary distances (8 bit) and positions and five sensitivities; every history of 4 (5) events of a scroll key, a layer key and another key',
 DT+'mice are not tested at all.',
 DM+' '+KB,'event_handler@src/daemon.c process_keypress@src/daemon.c process_descriptor@src/keyboard.c', DB+'The axis a scroll step is reported on is not checked while scroll() is active.')
p('D09','What keyd sends reaches the system exactly',
 'Every key keyd can send is announced on its virtual keyboard (buttons: pointer) when it starts, and sending one writes exactly one event with its kernel code and state to that device, followed by a report; movement, scrolling and absolute positions are written exactly as given to the pointer, likewise reported at once; a failure to create the devices ends keyd with an error.',
 'inputs faults','every key code and state, every movement, scroll and absolute position (symbolic 32 bit), in every sequence of two; every failing step of the creation of the devices',
 'The test suite replaces the virtual device by a recording one.',
 'src/vkbd/uinput.c src/keys.c','write_key_event@src/vkbd/uinput.c create_virtual_keyboard@src/vkbd/uinput.c create_virtual_pointer@src/vkbd/uinput.c vkbd_mouse_move_abs@src/vkbd/uinput.c', DB)
p('D10','The USB gadget reports exactly the keys and modifiers held',
 'Built for a USB gadget, keyd reports after every change exactly the modifiers held and the HID usages of the keys held, each once, the first six if there are more; a released key is gone from the report.',
 'inputs histories','every key code; every history of 3 (thorough 4) presses and releases of eight keys and two modifiers starting with up to eight keys held',
 'The gadget is not built by the test suite.',
 'src/vkbd/usb-gadget.c src/vkbd/usb-gadget.h','update_key_state@src/vkbd/usb-gadget.c send_hid_report@src/vkbd/usb-gadget.c', DB+'Media keys without a usage on the keyboard page are not claimed.')
p('D12','A second daemon does not disturb the first',
 'A daemon takes the command socket only while holding its lock: if another one holds it, it gives up without touching the socket; otherwise a stale socket is replaced, only the owner and the keyd group may connect, and any failure ends it with an error; commands it starts keep neither the lock nor the socket.',
 'faults','every combination of another daemon running, a missing group, and a failure of any of the system calls',
 'Starting the daemon is not tested.',
 'src/ipc.c src/daemon.c','ipc_create_server@src/ipc.c', DB)
p('D15','Commands send what they are given and report the answer',
 'keyd input and do send the text given (arguments joined by spaces, or the whole input) with the pause given, keyd bind each of its bindings, reload and listen their request, each whole and in one message; what is too long is refused, the answer is shown and decides the exit status, and lost connections, unreadable input and missing answers are reported as failures rather than ignored or retried forever.',
 'inputs faults','arguments of up to three arbitrary characters, texts of 0 to 4099 bytes from arguments or input in pieces, two-digit pauses, up to three bindings, a failure of any system call, answers cut short',
 'The client is not tested.',
 'src/keyd.c src/ipc.c src/util.c','ipc_exec@src/keyd.c read_input@src/keyd.c add_bindings@src/keyd.c layer_listen@src/keyd.c xread@src/util.c xwrite@src/util.c', DB)
PB='Exhaustive over the symbolic text within the stated bounds (ASCII); the script is executed as it is, with proxies for strings, bytes and integers (py/symex.py) and models of what it imports, validated by running the script itself on sampled paths and on every counterexample; decided by domains of single characters and Z3. '
p('P01','The window in focus gets exactly the bindings of the sections matching it',
 'Whenever a window gets the focus (or the mapper is signalled), keyd is told to reset its bindings and apply those of exactly the sections of app.conf whose class and title patterns (with * and ?) match the normalised class and title of the window, in the order of the file, as its lines say and as it was when last changed.',
 'inputs histories','every pair of sections with patterns of 1-2 characters and windows with names of up to 3 arbitrary characters; every two lines of up to 3 (thorough 4) arbitrary characters; every history of 3 (4) windows, signals and changes of the file',
 'The script is not tested at all.',
 'scripts/keyd-application-mapper','parse_config@scripts/keyd-application-mapper lookup_bindings@scripts/keyd-application-mapper normalize_class@scripts/keyd-application-mapper on_window_change@scripts/keyd-application-mapper', PB+'[ within a pattern is outside; for X11 and KDE see P03.')
p('P02','The window in focus is followed exactly',
 'On a wayland compositor the mapper binds the interface announced, understands its messages however they are cut into pieces, and applies the bindings of the active window with its current class and title - of no other window - whenever it is activated (wlroots, cosmic) or renamed (wlroots), whatever other windows do, look like or are closed.',
 'histories inputs schedules','every history of 3 (thorough 4) title, class, state (of up to two symbolic elements), done and close events of two windows; every registry of up to three globals; every way to cut the messages of a window in two',
 'The script is not tested at all.',
 'scripts/keyd-application-mapper','Wlroots.run@scripts/keyd-application-mapper Cosmic.run@scripts/keyd-application-mapper Wayland.recv_msg@scripts/keyd-application-mapper', PB+'Cosmic: histories of 2 (3) events.')
p('P03','On X11 and KDE the bindings follow the focus',
 'Whenever the mapper has come to rest on X11, the bindings in force are those of the window which has the focus (or of a floating window kept above the others, notifications excepted) with its present class and title - also where the focus lies in a child of the window, the title changes, windows vanish meanwhile, or events arrive while others are being processed; on KDE (5 and 6) those of the window the compositor last reported, whatever its title and class contain.',
 'histories schedules faults','every history of 3 (thorough 4) changes of focus and title, maps, removals and signals over three windows with symbolic classes and titles; every one of 2 (3) changes in which the second happens at any of the first 24 requests made for the first; on KDE every 2 (3) windows with titles and classes of up to two arbitrary characters',
 'The script is not tested at all.',
 'scripts/keyd-application-mapper','XMonitor.run@scripts/keyd-application-mapper XMonitor.get_window_info@scripts/keyd-application-mapper KDE.run@scripts/keyd-application-mapper', PB+'python-xlib and dbus-python are not installed: they are stand-ins (py/fakewin.py) for the symbolic runs and the replays alike; the KWin script is run by node with the scripting interface of KWin 5 or 6.')
p('D14','keyd monitor and list-keys name keys as the configuration does',
 'keyd monitor reports every key pressed or released on every keyboard by the name the configuration knows it by, with the device and (with -t) the time since the previous event, and every keyboard added or removed, nothing else; it takes no device over, ends when its reader does and leaves the terminal as it was. keyd list-keys prints exactly the names keys have.',
 'histories inputs','every history of 2 (thorough 3) events of six kinds with an arbitrary key code or time (three digits) among them; terminals, pipes, files and sockets; every name of all 256 codes',
 'Neither command is tested.',
 'src/monitor.c src/keyd.c src/keys.c','monitor@src/monitor.c event_handler@src/monitor.c list_keys@src/keyd.c', DB+'Times of other events are around multiples of 2^31 ms.')
