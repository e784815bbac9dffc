#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept here so that the long lines stay editable)."""
import json, os
P = []
B = "content/lib/pyswitch/"
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [(B + f) if not f.startswith("web/") and not f.startswith("content/") else f for f in files],
                          "mechanism": [{"name": n, "where": B + w if not w.startswith("web/") else w} for n, w in mech],
                          **({"state": [{"name": n, "meaning": m, "where": B + w} for n, m, w in state]} if state else {}),
                          **({"observe_at": observe} if observe else {}), "hook_needed": None}})

prop("C01", "Parameter values survive the wire encoding",
  "Setting a numeric parameter to any value of its range (0..16383 for NRPN SysEx, 0..127 for control change and program change) transmits a message that carries exactly that value: for SysEx as two 7-bit bytes, quotient and remainder by 128, directly behind the six unchanged address bytes; for control and program change as the value itself on the unchanged controller. A device answer carrying the same two bytes is decoded to the same value. Setting one parameter never alters the address bytes, the manufacturer ID or the message of any other parameter.",
  ["inputs"], "all parameter values in range, all address bytes and manufacturer IDs, all message kinds, single messages and lists of messages of any length",
  "The tests sample a handful of values (mostly below 128 or powers of two); the property is about all 16384 values, all addresses and repeated sets on the same message object.",
  ["controller/client.py"], [("ClientParameterMapping.set_value / __set_value", "controller/client.py"), ("ClientParameterMapping.parse_against", "controller/client.py")],
  observe=["bytes of the message handed to the MIDI port", "mapping value after receiving"])

prop("C02", "Only matching messages change a parameter, and they always do",
  "An incoming message changes the value of a pending or bidirectional parameter and notifies its listeners if and only if it has the message type of the parameter's answer and, for SysEx, the same manufacturer ID and the same function code, instance, address page and address number, or, for control change, the same controller number (any program change matches a program change answer). A message that does not match changes neither the value nor anything a listener can see. String parameters get exactly the characters that follow the address bytes, without the final terminator byte.",
  ["inputs"], "all messages (any type, any manufacturer, any data bytes, any string length) against all answer templates",
  "Tests compare a few concrete messages; the iff needs every byte position and every message type pair.",
  ["controller/client.py"], [("ClientParameterMapping.parse / parse_against", "controller/client.py"), ("ClientRequest.parse", "controller/client.py")],
  observe=["mapping value", "listener calls"])

prop("C03", "Two-part parameters combine exactly one first and one second part",
  "A two-part parameter (like the Kemper rig ID) reports 128 times its last received first part plus its second part, at the moment the second part arrives, and notifies its listeners exactly once per such pair. A first part alone, or a second part without a first part since the last report, neither changes the reported value nor notifies anybody. If several first parts arrive, the most recent one counts.",
  ["histories", "inputs"], "all interleavings of first parts, second parts and foreign messages, all values of both parts",
  "Tests feed one or two ordered pairs; histories with repeated, missing or swapped parts are not sampled.",
  ["controller/client.py"], [("ClientTwoPartParameterMapping.parse / result_finished", "controller/client.py"), ("ClientRequest.parse", "controller/client.py")],
  state=[("first part buffer", "last first part not yet combined", "controller/client.py")])

prop("C04", "Parameter requests: one message in flight, every listener answered once",
  "While a parameter request is pending, requesting the same parameter again sends nothing more; the first request sends each of its request messages exactly once. When the answer arrives, every listener that asked (however many there are, each counted once) is notified exactly once with the new value and nobody else is; the request is then gone, so the next request sends again. Registered parameters which have no request message are never dropped: their listeners are notified on every matching message.",
  ["histories", "inputs"], "any number of pending requests and listeners, any order of request, registration and reception",
  "Tests use one to three requests/listeners in fixed orders; the property must hold for any number and any history.",
  ["controller/client.py", "misc.py"], [("Client._register_mapping / get_matching_request / receive / __cleanup_requests", "controller/client.py"), ("ClientRequest.send / parse", "controller/client.py"), ("EventEmitter.add_listener", "misc.py")],
  state=[("pending requests", "list of requests with their listeners", "controller/client.py")])

prop("C05", "Unanswered requests are terminated, only they and only once",
  "A pending request which is older than the maximum request lifetime is terminated at the next cleanup (at most half a lifetime later): each of its listeners gets exactly one termination signal, no value is changed, and the request is dropped so that the parameter can be requested again. Younger requests and parameters registered without a request message are left untouched. A terminated request never notifies its listeners again.",
  ["histories", "schedules"], "any number of pending requests, any ages, any lifetime setting, any clock readings",
  "Tests mock the period counter and run one or two requests; boundaries and mixtures of ages are not covered.",
  ["controller/client.py", "misc.py"], [("Client.__cleanup_hanging_requests", "controller/client.py"), ("ClientRequest.terminate / __init_lifetime", "controller/client.py"), ("PeriodCounter.exceeded", "misc.py")])

prop("C06", "Setting a parameter sends exactly its messages, in order",
  "Setting a parameter sends every SET message of that parameter exactly once, in order and after the value has been put into it, and sends nothing else; a parameter without a SET message sends nothing. With a bidirectional protocol, a parameter the protocol covers additionally gets the set value immediately and each of its listeners is notified exactly once, while the listeners of other parameters are not.",
  ["inputs", "histories"], "any parameter shape (none, single, list with gaps), any values, any number of listeners",
  "Tests use at most two messages and one listener.",
  ["controller/client.py"], [("Client.set", "controller/client.py"), ("BidirectionalClient.set", "controller/client.py"), ("ClientRequest.notify_listeners", "controller/client.py")])

prop("C07", "Push button modes behave as documented for every press",
  "For every sequence of presses and releases, each button mode changes its state exactly as documented: enable and disable force the state, latch toggles per press, momentary is on (inverse: off) only while held, hold-momentary toggles on press and toggles back on release only if held longer than the hold time, one-shot fires an enable on every press and shows off afterwards, and the no-change mode does nothing. The parameter command is triggered exactly once for every actual state change made by the user and never when the state stays the same. Feedback from the device changes the state without triggering any command.",
  ["histories", "inputs", "schedules"], "all modes, all initial states, all press/release/feedback/reset sequences, all hold durations",
  "Tests run one or two presses per mode with mocked timers; interleavings with feedback and boundary hold times are open.",
  ["controller/actions/__init__.py"], [("PushButtonAction.push / release / state / feedback_state / reset", "controller/actions/__init__.py")],
  state=[("state", "current on/off state", "controller/actions/__init__.py")])

prop("C08", "One press of a switch is one push and one release",
  "A switch without hold actions calls push on each of its enabled actions exactly once, in configured order, when it goes down, and release exactly once when it comes up, regardless of how often it is polled in between; disabled actions are not called. While an override is set on the switch, the override gets the push and the release instead, and the normal actions only run if the override asks for it.",
  ["histories", "schedules"], "any number of actions, any enabled pattern, any polling sequence and override setting",
  "Tests script short fixed polling sequences with one or two actions.",
  ["controller/inputs.py"], [("SwitchController.process", "controller/inputs.py"), ("_flatten_actions", "controller/inputs.py")],
  state=[("pushed state", "switch was down at the last poll", "controller/inputs.py")])

prop("C09", "Short presses and long presses never mix",
  "On a switch with hold actions, a press that is released within the hold time pushes and releases each enabled normal action exactly once, at the time of the release, and no hold action; a press held longer fires each enabled hold action (push then release) exactly once, or, if hold repetition is on, once per elapsed hold period, and no normal action. This holds for every press, independent of what happened at earlier presses. Normal and hold actions are all set up exactly once and updated regularly.",
  ["histories", "schedules"], "any sequence of presses, any hold durations relative to the polling, repeat on/off, any actions",
  "Tests mock the hold timer with scripted answers for one press; expiry exactly at the release and follow-up presses are not covered.",
  ["controller/inputs.py"], [("SwitchController.process / __check_hold", "controller/inputs.py")],
  state=[("hold state", "press pending / hold action already fired", "controller/inputs.py")])

prop("C10", "On/off state of a parameter follows the configured comparison",
  "Whenever a changed value comes in, a button bound to a parameter shows the state given by comparing it with the reference value (equal, greater, greater-or-equal, less, less-or-equal); an unknown value counts as off; in the no-state-change mode received values do not change the state, and a state kept internally survives an unknown value. Display label and LED show the on-look exactly when the state is on (and the parameter reports its state or internal state is enabled), otherwise the off-look.",
  ["inputs"], "all received values including unknown, all reference values, all comparison modes, all prior states",
  "Tests compare a few sample values around one reference.",
  ["controller/callbacks/__init__.py", "colors.py"], [("BinaryParameterCallback.evaluate_value / update_displays / set_switch_color / set_label_color", "controller/callbacks/__init__.py")])

prop("C11", "Switching a parameter sends its enable value, switching off its disable value",
  "When the user switches a parameter on, exactly its enable value is sent to it; when switched off, exactly its disable value is sent, to the separate disable parameter if one is configured. With the automatic disable value, switching off restores the value most recently received while the parameter was off, and nothing is sent for switching off as long as no such value is known (with a list of disable values, an unknown automatic entry suspends sending altogether). After each user change the current value is requested again.",
  ["inputs", "histories"], "all enable/disable values (single or list), automatic mode, any history of received values and user changes",
  "Tests sample one auto value and two toggles.",
  ["controller/callbacks/__init__.py"], [("BinaryParameterCallback.state_changed_by_user / evaluate_value", "controller/callbacks/__init__.py")],
  state=[("disable value", "value restored when switching off", "controller/callbacks/__init__.py")])

prop("C12", "LED segments are divided fairly and without overlap",
  "The LEDs of a switch are divided among its enabled LED-using actions in their order: a single action gets all LEDs; with fewer actions than LEDs the first gets the surplus and every other exactly one; otherwise each of the first actions gets one and the rest none. No LED is ever assigned to two actions, all LEDs of the switch are used whenever there is at least one such action, and disabled or non-LED actions get none. Setting color or brightness of an action changes exactly its own LEDs.",
  ["configurations", "inputs"], "any number of LEDs and actions, any enabled/use pattern",
  "Tests enumerate a few combinations up to 3 LEDs.",
  ["controller/actions/__init__.py", "controller/inputs.py"], [("Action.__get_led_segments / switch_color / switch_brightness", "controller/actions/__init__.py")])

prop("C13", "LED output is color times brightness, on the switch's own pixels only",
  "Whenever brightness is set on a switch, each of its pixels is driven with its color components multiplied by its brightness and rounded down, each component between 0 and the color component for brightness in [0..1]; pixels of other switches are never written. Reading color and brightness back returns what was set, and setting a wrong number of colors or brightnesses is rejected without changing any LED.",
  ["inputs", "configurations"], "all colors, brightnesses, pixel assignments",
  "Tests use a few color/brightness pairs.",
  ["controller/inputs.py", "colors.py"], [("SwitchController.colors / brightnesses / color / brightness", "controller/inputs.py"), ("dim_color", "colors.py")])

prop("C14", "Pedal positions map monotonically into the parameter range",
  "For every pedal position the value sent lies in [0..maximum]; positions below the minimum raw threshold give 0, the full position gives the maximum, and a higher position never gives a lower value. A value is sent only when it differs from the last one sent and not more often than the configured frame rate allows. With auto-calibration nothing is sent until the covered range reaches the minimum window, and afterwards the covered range is what maps onto the full range. A transfer function replaces the mapping: exactly its answers are sent. Values sent are previewed on the display given, for the time given.",
  ["inputs", "histories", "schedules"], "all raw positions, all maximum values and step numbers, any position history and timing",
  "Tests use a handful of raw values with the default resolution.",
  ["controller/actions/AnalogAction.py"], [("AnalogAction.process", "controller/actions/AnalogAction.py")],
  state=[("calibration window", "smallest and largest raw position seen", "controller/actions/AnalogAction.py")])

prop("C15", "Encoders stay in range and only send what was accepted",
  "Turning an encoder changes the parameter by the position change times the step width, clamped to the configured minimum and maximum; turning it with no position change or while disabled sends nothing. With an accept button, turning sends nothing at all: only pressing accept sends, exactly once, the last previewed value, and pressing cancel discards it and sends nothing. If the parameter value is still unknown, turning starts from zero (with an accept button, the first step selects zero). Turns made on another page have no effect later.",
  ["inputs", "histories"], "all position sequences (also negative), all step widths and limits, accept/cancel at any point, known and unknown parameter values",
  "Tests run short scripted turns from positive positions.",
  ["controller/actions/EncoderAction.py", "clients/local/actions/encoder_button.py"], [("EncoderAction.process / accept / cancel", "controller/actions/EncoderAction.py"), ("_EncoderButtonCallback", "clients/local/actions/encoder_button.py")],
  state=[("last position / last value", "reference for the next turn", "controller/actions/EncoderAction.py")])

prop("C16", "MIDI routing forwards every message to every routed target exactly once",
  "Every message read from a device is forwarded exactly once to every target device routed from that source, in the order of arrival, and to no other target; each source is polled once per cycle however many routings start there. Messages of unknown type are not forwarded. Messages sent by the application go exactly once to every target routed from the application, and the application receives the first available message of the sources routed to it, losing none.",
  ["configurations", "histories"], "any number of routings between any devices, any message queues",
  "Tests use up to three routings with scripted devices.",
  ["controller/midi.py"], [("MidiController.send / receive / __process_external_routings", "controller/midi.py")])

prop("C17", "The main loop loses no message and stays responsive",
  "In every processing step all switches and inputs are polled before each message is taken, every message taken from the MIDI interface is handed to the client exactly once and in order, and reception stops when no message is available or after at most the configured number of consecutive messages plus one. Periodic updates run each registered component exactly once per elapsed update interval and never more often, with messages also being processed between two components.",
  ["schedules", "histories", "configurations"], "any message stream, any number of inputs and updateables, any limits and timing",
  "Tests script a few messages and one updateable.",
  ["controller/controller.py", "misc.py"], [("Controller.tick / __receive_midi_messages", "controller/controller.py"), ("Updater", "misc.py")])

prop("C18", "Bidirectional session: init, keep-alive, loss detection",
  "While offline, an initialization beacon (init flag set) is sent at most once per 5 seconds; the session is running from the first matching sensing message after such a beacon until no sensing message came for more than 1.5 seconds. While running, a keep-alive beacon without init flag is sent whenever half of the lease time has passed. After a session was lost, listeners of all bidirectional parameters are told so on each re-initialization attempt; before any session existed they are not.",
  ["histories", "schedules", "fault_sequences"], "any interleaving of updates, sensing messages, foreign messages and time steps, any lease time",
  "Tests script one start and one loss; repeated loss, boundary times and early sensing messages are not covered.",
  ["clients/kemper/__init__.py", "controller/client.py"], [("KemperBidirectionalProtocol.update / receive / __send_beacon", "clients/kemper/__init__.py"), ("BidirectionalClient.notify_connection_lost", "controller/client.py")],
  state=[("session state", "offline or running", "clients/kemper/__init__.py")])

prop("C19", "Bidirectional parameters are never polled",
  "With a bidirectional protocol, parameters the protocol covers never cause a request message, while all others are requested as usual; a received message is offered to the waiting parameters first and reaches the protocol only if none of them took it. On connection loss exactly the listeners of protocol-covered parameters get one termination signal each, and their registrations stay.",
  ["inputs", "histories"], "any set of covered and other parameters, any messages, any number of listeners",
  "Tests use one covered and one other parameter.",
  ["controller/client.py"], [("BidirectionalClient.register / receive / notify_connection_lost", "controller/client.py")])

prop("C20", "Rig up/down always reaches a valid neighbouring rig",
  "Rig up and rig down move from any rig to the directly following or preceding one of all 625 rigs, wrapping at the ends, or stay within the current bank (without wrapping) if the bank is to be kept. The bank is sent only if it changes and before the rig; the rig button number sent is always 0..4 of the target, with value 1 on press and 0 for the same rig on release. Nothing is sent when the current rig is unknown or does not change.",
  ["inputs", "histories"], "all 625 current rigs, both directions, bank keeping on/off, press/release sequences",
  "Tests sample few rig IDs.",
  ["clients/kemper/actions/rig_up_down.py"], [("_KemperRigChangeCallback.push / release / __get_next_rig", "clients/kemper/actions/rig_up_down.py")])

prop("C21", "Bank up/down preselection stays inside the available banks",
  "With preselection, bank up and bank down select exactly the next or previous bank relative to the bank already preselected or else the current bank, wrapping inside the number of available banks (configured maximum or 125); the value sent and the preselected bank shown to all other actions are the same and always valid. Without preselection each press sends the bank step command exactly once. If the current bank is unknown, preselection sends nothing. Every documented setting of the label and LED brightness is applied.",
  ["inputs", "histories", "configurations"], "all current rigs, preselected banks, maximum bank settings, press sequences",
  "Tests sample a few banks near the wrap.",
  ["clients/kemper/actions/bank_up_down.py"], [("KemperBankChangeCallback.push / __get_next_bank / init", "clients/kemper/actions/bank_up_down.py")])

prop("C22", "Rig select sends the right bank and rig for every situation",
  "Pressing a rig select button sends the configured bank (if any) before the rig and then the configured rig; if the configured rig is already active and an off-rig is configured, the off-bank and off-rig are sent instead, where automatic off values are the last rig number and the last bank number received which differ from the configured ones. If a bank preselection is pending, no bank is sent, the configured rig is selected and the preselection ends. Releasing sends value 0 for exactly the rig that was pressed, once.",
  ["inputs", "histories", "configurations"], "all rigs and banks, off settings (fixed, automatic, none), preselection pending or not, press/release/rig change sequences",
  "Tests sample a few configurations; combinations of automatic values with preselection are open.",
  ["clients/kemper/actions/rig_select.py"], [("KemperRigSelectCallback.push / release / update_displays / state", "clients/kemper/actions/rig_select.py")])

prop("C23", "Bank select switches or toggles banks and keeps the rig",
  "Pressing a bank select button sends its bank, or its off-bank if one is configured and the bank is already active, followed by the rig button of the currently active rig position so that the rig number is kept; on release value 0 is sent for that rig exactly once. In preselect mode only the bank is sent and it becomes the pending preselection (if it is not the current bank without any pending preselection); otherwise a pending preselection ends. Nothing is sent as long as the current rig is unknown.",
  ["inputs", "histories", "configurations"], "all current rigs, banks, off-banks, preselect on/off",
  "Tests sample a few banks.",
  ["clients/kemper/actions/bank_select.py"], [("KemperBankSelectCallback.push / release / state", "clients/kemper/actions/bank_select.py")])

prop("C24", "Paging: exactly the actions of the current page are enabled",
  "After start, the first page is current; pressing a rotating pager goes to the next page and wraps after the last one, pressing a direct page button goes to that page, whatever happened before, so the current page is always an existing one. Exactly the actions whose page ID equals the current one are enabled. Every page change resets all actions once.",
  ["histories", "configurations"], "any number of pages, any page IDs, any press sequence of pagers and direct buttons",
  "Tests use two or three pages and few presses.",
  ["clients/local/actions/pager.py", "clients/local/actions/pager_direct.py"], [("PagerAction.push / init / _EnableCallback", "clients/local/actions/pager.py"), ("DirectPagerProxy.push", "clients/local/actions/pager_direct.py")],
  state=[("current page", "index and ID of the current page", "clients/local/actions/pager.py")])

prop("C25", "Parameter up/down steps stay in range and repeat only while held",
  "Pressing a parameter up or down button sends exactly the current value plus the offset, clamped to [0..maximum]; nothing is sent if the value is unknown. If repetition is configured, one further step is sent per elapsed repeat interval while the button is held, and none after it is released or when its action was disabled (its page left) or overridden (tuner mode) meanwhile.",
  ["inputs", "histories", "schedules"], "all values, offsets, maxima, hold and repeat timings",
  "Tests sample a few values and one repetition.",
  ["clients/local/actions/param_change.py"], [("_ParameterChangeCallback.push / release / update", "clients/local/actions/param_change.py")])

prop("C26", "Rotating messages cycle through their lists in order",
  "With rotating messages, the n-th press sends exactly the n-th configured press message and the n-th release exactly the n-th release message, each counted modulo the length of its own list, and the colors and texts shown advance by one after every release, modulo their own lengths. The bytes sent are exactly the configured bytes.",
  ["histories", "configurations"], "any list lengths and contents, any number of presses",
  "Tests run a few presses over lists of two or three entries.",
  ["clients/local/actions/rotate.py"], [("_CustomMessagesCallback.push / release / __next_step / update_displays", "clients/local/actions/rotate.py")])

prop("C27", "Value previews appear, expire and give way correctly",
  "A preview text is shown on its label immediately and disappears after its timeout but not before, or stays until it is reset if it is to stay; after it disappears the label shows its normal content and keeps the original text color after a reset. Starting a preview cancels every other client that had announced itself on the same label, and not the one starting it. A blinking preview changes between the blink and the original text color at most once per blink interval. A parameter preview shows the value as rounded percentage of its maximum, or the text the text callback returns for the value. A value which is preselected with an encoder stays and blinks until it is accepted or cancelled; a value an encoder sends directly disappears after the timeout, without blinking.",
  ["histories", "schedules"], "any sequence of previews, resets, updates and time steps by any number of clients",
  "Tests script single previews with mocked timers.",
  ["controller/preview.py"], [("ValuePreview.preview / reset / update", "controller/preview.py")])

prop("C28", "Layout operations partition the screen",
  "Cutting a strip off a rectangle returns a strip of exactly the requested size on the requested side and leaves exactly the rest: strip and rest do not overlap, together they are the original rectangle, and the untouched dimension is equal in both. The non-modifying variants return the same strip and leave the rectangle unchanged. A split container gives its children equal, adjacent, non-overlapping slots of full cross size, in order and inside its own area.",
  ["inputs", "configurations"], "all rectangles and sizes, any number of children, nested containers",
  "Tests use one or two rectangles per function.",
  ["ui/layout.py", "ui/ui.py", "ui/DisplaySplitContainer.py"], [("remove_from_top/bottom/left/right, top/bottom/left/right, translate, with_position", "ui/layout.py"), ("DisplaySplitContainer.update_bounds", "ui/DisplaySplitContainer.py")])

prop("C29", "Every effect type has a category, color and name",
  "For every effect type number a device can report (0..16383), the Kemper effect slot display determines the category documented for that type number, or none for undefined numbers, and a color and name exist for it. An empty or undefined slot is always shown as off.",
  ["inputs"], "all effect type values, all slots, with and without custom texts and colors",
  "Tests sample type numbers; tables and ranges have to agree for all of them.",
  ["clients/kemper/actions/effect_state.py", "controller/callbacks/effect_enable.py"], [("KemperEffectEnableCallback.get_effect_category / _color / _text", "clients/kemper/actions/effect_state.py"), ("EffectEnableCallback.update_displays", "controller/callbacks/effect_enable.py")])

prop("C30", "The tuner shows the right note and stays inside its display",
  "The tuner shows the note name belonging to the received note number modulo 12, for any note number. The needle is always drawn inside its display area, moves monotonically with the deviance and has the in-tune color exactly when the deviance lies within the calibrated range.",
  ["inputs"], "all note numbers, deviances 0..16383, display bounds, zooms and calibration ranges",
  "Tests sample a few deviances with one geometry.",
  ["ui/elements.py"], [("TunerDisplay.parameter_changed", "ui/elements.py"), ("_TunerDevianceDisplay.set", "ui/elements.py")])

prop("C31", "Tuner mode takes over all switches and gives them back",
  "When the tuner is switched on, all switches are taken over and a full press and release of any of them switches the tuner off exactly once; a release belonging to a press made before tuner mode does not. When the tuner goes off, every switch works normally again, all its actions are reset once, and the default display is shown; the tuner display is shown exactly while the tuner is on.",
  ["histories", "configurations"], "any number of switches and other inputs, any sequence of tuner state messages and presses",
  "Tests use two switches and one on/off cycle.",
  ["clients/kemper/__init__.py", "controller/inputs.py"], [("TunerDisplayCallback.parameter_changed / push / release / get_root", "clients/kemper/__init__.py")])

prop("C32", "Morph colors stay between base and morphed color",
  "The morph color is the base color at morph value 0 and the morphed color at the maximum value, and every component always lies between the two and moves monotonically with the morph value. When the shared internal morph state is active, it is what is shown, and it follows value changes received from the device except for the one value to be ignored after a rig change. The morph state added to a rig select action is never shown while that action is disabled, and uses the id and colors configured.",
  ["inputs", "histories"], "all morph values, all color pairs",
  "Tests sample few values with one color pair.",
  ["clients/kemper/actions/morph.py"], [("_get_color", "clients/kemper/actions/morph.py"), ("KemperMorphCallback.evaluate_value / state_changed_by_user", "clients/kemper/actions/morph.py")])

prop("C33", "Labels show what was set, with readable contrast",
  "A label shows the text last set, or the low memory warning if memory is low when it is set; updating a label shows the override text as long as one is set, else what the label's callback determines. If no text color is configured, the text is white on backgrounds with a weighted luminance (mean for several colors) below 140 and black otherwise, after every change of the background color; a configured text color is kept. A background can neither be removed nor added later.",
  ["inputs", "histories"], "all texts, colors and sequences of changes",
  "Tests sample few colors.",
  ["ui/elements.py"], [("DisplayLabel.text / back_color / text_color / update_label", "ui/elements.py")])

prop("C34", "A period elapses when more than its interval has passed",
  "A period counter reports its period as elapsed if and only if strictly more than the interval has passed since it was last reset or last reported as elapsed, and reporting it restarts the period at that moment. Hence it never reports twice within one interval, and asking for the passed time never restarts it.",
  ["schedules", "histories"], "all clock readings, intervals and query sequences",
  "Tests sample a few fixed times.",
  ["misc.py"], [("PeriodCounter", "misc.py")], state=[("last reset", "time of the last reset", "misc.py")])

prop("C35", "Parameters, listeners and components are registered only once",
  "Asking for a parameter by name always returns the same parameter object for the same name, whoever asks and in whatever order, and different objects for different names. Adding the same listener or the same periodically updated component again has no effect, and objects which cannot be updated are not added. Every update or reset reaches each registered component exactly once, in order of registration.",
  ["histories", "configurations"], "any number of parameters, listeners and components, any order",
  "Tests register two or three objects.",
  ["misc.py", "controller/client.py"], [("ClientParameterMapping.get / ClientTwoPartParameterMapping.get", "controller/client.py"), ("Updater / EventEmitter", "misc.py")])

prop("C36", "The screen always shows the selected root element, fully initialized",
  "Showing the user interface displays exactly the root element the screen callback currently selects; switching to another root displays that one, and an unchanged root is not displayed again. Every element of the shown root is initialized exactly once over all switches, and exactly the shown root's updatable elements are updated, once per update.",
  ["histories", "configurations"], "any element trees, any sequence of root changes and updates",
  "Tests use two small trees.",
  ["ui/UiController.py", "ui/ui.py"], [("UiController.show / update", "ui/UiController.py"), ("DisplayElement.init / initialized / contents_flat / make_splash", "ui/ui.py")])

prop("C37", "Strobe tuner brightness is always within the dimmed range",
  "While the tuner is on, every switch LED driven by the strobe has a brightness between 0 and the configured dim factor after every frame, whatever the LEDs showed before, for any deviance, speed, width and timing, and the strobe position stays bounded. LEDs are updated at most once per configured frame period, and not at all while the tuner is off or with fewer than two switches. The highlight moves along the strobe order of the switches when the note is too high, against it when too low, and the other way round if reversed.",
  ["inputs", "histories", "schedules"], "all deviances, speeds, widths, numbers of switches and timings",
  "Tests compare a few frames.",
  ["controller/strobe.py"], [("StrobeController.parameter_changed / __update_strobe", "controller/strobe.py")])

prop("C38", "Runtime statistics are exact",
  "A runtime measurement reports the exact maximum, sum, number and rounded-down average of all durations started and finished since the last report, and zero for all of them if there were none. Listeners get a report exactly once per elapsed interval, after which counting starts again.",
  ["histories", "schedules"], "any sequence of starts, finishes and updates at any times",
  "Tests measure one or two durations.",
  ["controller/measure.py"], [("RuntimeMeasurement", "controller/measure.py")])

prop("C39", "Kemper parameters ask for and listen to the same address",
  "For every predefined Kemper parameter that can be requested, the expected answer has the same address page and number as the request, the function code belonging to it, and no two different parameters of the device share the same request address; for SysEx parameters that can be set, the set message has the address of the answer, too. Effect slot parameters of slot k use exactly the addresses and controller numbers of slot k, and all others the documented ones. An answer to one parameter is taken by no other one. The texts of a rig are only asked for when the rig has changed.",
  ["configurations"], "all predefined parameters and all slots, rigs and buttons",
  "Tests check single mappings' bytes; consistency over the whole table is not tested.",
  ["clients/kemper/__init__.py", "clients/kemper/mappings/effects.py", "clients/kemper/mappings/amp.py", "clients/kemper/mappings/select.py"], [("KemperMappings and mapping factories", "clients/kemper/__init__.py")])

prop("C40", "Explore mode highlights exactly one existing switch",
  "In explore mode every press moves the highlight one switch forward or backward, wrapping at both ends, and exactly one switch is highlighted afterwards whatever the press history. The pixel numbers reported are those of the highlighted switch, and no two switches share a pixel.",
  ["histories", "configurations"], "any number of ports and pixels per switch, any press sequence",
  "Tests press a few times with fixed ports.",
  ["controller/explore.py"], [("ExploreModeController.show_next_switch / __calculate_pixels", "controller/explore.py")])

prop("C41", "Shown again, an action looks right; hidden, it leaves the screen alone",
  "A predefined action that is hidden for a while (its page is left) and shown again looks exactly as if it had been shown all the time: same text, label color, LED colors and brightness, whatever was reported by the device meanwhile and whatever other actions painted over it. The same holds after a reset (leaving the tuner). Without a display label configured, the LEDs are just the same. While hidden, it writes to no LED and no label and sends nothing, whatever values are reported, however much time passes and whatever switch is pressed.",
  ["histories", "configurations"], "all predefined kinds of actions, all reported values, any time hidden",
  "Tests update the displays of actions that are always shown.",
  ["controller/actions/__init__.py", "controller/callbacks/__init__.py", "clients/kemper/actions/tempo.py"], [("Action.update / reset / update_displays", "controller/actions/__init__.py"), ("reset and update_displays of all callbacks", "controller/callbacks/__init__.py")])

prop("C42", "Predefined buttons send exactly the documented messages",
  "Every predefined button (looper, tap tempo, fixed effects, rig volume boost, tuner, effect buttons I to IIII, Boomerang commands, keyboard keys, the generic switch) sends on press and release exactly the messages documented for it, with the configured or documented values, whatever happened before: momentary buttons on at press and off at release, toggling ones the opposite of the state the device reported last and the former state again if held longer than the hold time, Boomerang ones their two program changes in turns, keyboard buttons their key codes in order at press only. Nothing else is sent apart from requests for the own parameter.",
  ["inputs", "histories", "configurations"], "all predefined buttons, all reported values, all hold times",
  "Tests check a few of these buttons with single presses.",
  ["clients/kemper/actions/looper.py", "clients/kemper/actions/fixed_fx.py", "clients/boomerang/actions/boomerang.py", "clients/local/actions/hid.py"],
  [("action factories", "clients/kemper/actions/looper.py"), ("PushButtonAction / BinaryParameterCallback", "controller/callbacks/__init__.py"), ("_BOOMERANG_ACTION", "clients/boomerang/actions/boomerang.py"), ("HidCallback", "clients/local/actions/hid.py")])

prop("C43", "The internal morph state follows rig and bank buttons",
  "Pressing a rig select button that is configured to morph while its rig (and bank, if configured) is already selected toggles the shared internal morph state, or sets it to fully morphed while it is held if momentary; any other press on a rig select button, every press which changes the rig or bank by other buttons and the end of a bank preselection resets it to unmorphed. Preselecting a bank with a bank select button, buttons which do nothing because the rig is unknown, and releases of other buttons leave it alone.",
  ["histories", "configurations"], "all rigs, banks, off settings, preselection pending or not, any morph state before, known or unknown current rig",
  "Tests check the toggle with one rig.",
  ["clients/kemper/actions/rig_select.py", "clients/kemper/actions/bank_select.py"], [("_KemperRigSelectCallback.push / release", "clients/kemper/actions/rig_select.py"), ("push of bank and rig up/down buttons", "clients/kemper/actions/bank_up_down.py")])

prop("C44", "Buttons and displays show the rig, bank and values they stand for",
  "The label and the LEDs of rig select, bank select, bank and rig up/down and parameter buttons, and the display elements (parameter label, split label, tempo, session state dot), show what the device last reported and what the configuration asks for: the number and color of the rig or bank the button leads to (or is at) or the configured text and color; bright exactly while the button's rig or bank is the one selected (or preselected, then blinking), dimmed otherwise, dark while the rig is unknown; the configured text of a parameter; the tempo LED lit for exactly the configured time per beat; the dot green exactly while the bidirectional session is established, and no dot without one.",
  ["inputs", "histories", "configurations"], "all rigs and banks reported, all rigs, banks, display modes, text / color overrides configured, any preselection and blink state",
  "Tests check a handful of rigs per button; the label depends on the current rig, the bank count and the preselection together.",
  ["clients/kemper/actions/rig_select.py", "clients/kemper/actions/bank_select.py", "clients/kemper/actions/bank_up_down.py", "clients/kemper/actions/rig_up_down.py", "clients/kemper/actions/tempo.py", "clients/kemper/__init__.py", "controller/callbacks/parameter_display.py", "ui/elements.py"],
  [("_KemperRigSelectCallback.update_displays", "clients/kemper/actions/rig_select.py"), ("KemperBankSelectCallback.update_displays", "clients/kemper/actions/bank_select.py"), ("BidirectionalProtocolState", "ui/elements.py")])

prop("C45", "Hardware adapters are transparent, device definitions address all inputs",
  "The MIDI adapters (USB and DIN) put exactly one packet with exactly the bytes of the message on the port for every message sent, on the configured channel, drop unknown events, and hand over what arrives (on the channels configured) once and unchanged. Switch, potentiometer and encoder adapters have no value before their initialization and afterwards report exactly what their own port shows (a switch is pushed when its pulled-up input is low). Display and LED drivers use the ports, sizes and speeds asked for, a font file is loaded once. In the definitions of the supported devices every switch has a pin of its own and three LEDs of its own, all LEDs are addressed and the strobe order runs once around the device.",
  ["inputs", "configurations"], "all messages, levels and positions; all channel settings; all device definitions",
  "The adapters are replaced by mocks in the tests.",
  ["hardware/adafruit/AdafruitDinMidiDevice.py", "hardware/adafruit/AdafruitUsbMidiDevice.py", "hardware/adafruit/AdafruitSwitch.py", "hardware/adafruit/AdafruitPotentiometer.py", "hardware/adafruit/AdafruitEncoder.py", "hardware/adafruit/__init__.py", "hardware/devices/pa_midicaptain.py", "hardware/devices/pa_midicaptain_10.py", "hardware/devices/pa_midicaptain_mini_6.py", "hardware/devices/pa_midicaptain_nano_4.py"],
  [("AdafruitUsbMidiDevice.send / receive", "hardware/adafruit/AdafruitUsbMidiDevice.py"), ("AdafruitSwitch.pushed", "hardware/adafruit/AdafruitSwitch.py"), ("PA_MIDICAPTAIN_10_*", "hardware/devices/pa_midicaptain_10.py")])

prop("C46", "Start runs exactly what the configuration files define",
  "At start the display is initialized before any configuration file is read (so that errors can be seen). In normal operation exactly one controller is built, with the protocol, the MIDI routings, the inputs, the splashes and the global configuration of the files, on the LEDs, the display and the fonts of the device; with the MIDI bridge enabled the controller uses the bridge around the configured MIDI layer. It is initialized once and then polled until it ends. In explore mode only the explore controller runs, with switches of the device. An error while the files are loaded or while the controller is built, initialized or polled is never swallowed: it is handed to the MIDI bridge exactly once if that is enabled, and raised otherwise.",
  ["configurations", "fault_sequences"], "all combinations of explore mode, MIDI bridge and protocol; errors at every stage",
  "The start script is not imported by any test.",
  ["process.py", "hardware/adafruit/__init__.py", "controller/controller.py"],
  [("start script", "process.py")])

prop("C47", "The browser emulation is a faithful device",
  "In the browser emulation every MIDI message the page has queued is read by the firmware exactly once, complete and in order, however many messages arrive at once and however few bytes are asked for; every packet the firmware sends goes to the MIDI output of the page exactly once. Switches, pedals and wheels show the state of their elements on the page at any time and are neutral if there is none. Every LED has its own element, which gets the color set; black is transparent, and brighter colors never look darker. After every poll the canvas shows all elements of the current root in order, at the sum of the positions of their groups, on black; text lines keep their order, spacing and anchor, and wrapping loses no word. The runner polls its controller once per interval until it is stopped; an error stops it, is reported and raised, and there are no polls afterwards.",
  ["inputs", "schedules", "fault_sequences"], "all messages, positions, colors and texts; bursts of messages; errors in any poll",
  "The emulation runs only in a browser, none of its code is reached by the unit tests.",
  ["web/htdocs/python/wrappers/wrap_adafruit_midi.py", "web/htdocs/python/wrappers/wrap_io.py", "web/htdocs/python/wrappers/wrap_adafruit_led.py", "web/htdocs/python/wrappers/wrap_adafruit_display.py", "web/htdocs/python/wrappers/WrapDisplayDriver.py", "web/htdocs/python/PySwitchRunner.py"],
  [("WrapMidiInput.read", "web/htdocs/python/wrappers/wrap_adafruit_midi.py"), ("PySwitchRunner.tick / stop", "web/htdocs/python/PySwitchRunner.py"), ("Group.render", "web/htdocs/python/wrappers/wrap_adafruit_display.py")])

prop("C48", "The web editor keeps the meaning of a configuration",
  "A configuration which is loaded into the web editor and written back, with or without passing the editor's data, has the same meaning: the same statements in the same order, the same calls, arguments, keys, values and named parts, whatever its formatting; the code and the imports which the user wrote himself are untouched. Changing, adding or removing one action or argument changes exactly that. Every name the file uses is imported from its place, on module level and once; imports nobody uses are removed, others stay. Named parts are written back to their own assignment; new ones come before their first use. From then on saving again changes nothing.",
  ["programs", "inputs"], "all configuration files and changes",
  "The parser of the editor is tested in the browser only, with a set of sample files.",
  ["web/htdocs/python/parser/PySwitchParser.py", "web/htdocs/python/parser/misc/CodeExtractor.py", "web/htdocs/python/parser/misc/CodeGenerator.py", "web/htdocs/python/parser/misc/AddImportsTransformer.py", "web/htdocs/python/parser/misc/RemoveUnusedImportTransformer.py", "web/htdocs/python/parser/misc/AddAssignmentTransformer.py", "web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py"],
  [("PySwitchParser", "web/htdocs/python/parser/PySwitchParser.py"), ("CodeExtractor", "web/htdocs/python/parser/misc/CodeExtractor.py"), ("CodeGenerator", "web/htdocs/python/parser/misc/CodeGenerator.py")])

prop("C49", "What the web editor offers exists in the firmware and works",
  "Every action, mapping and callback the web editor knows is defined in the firmware at the place it imports it from, with the parameters and the default values the editor shows, and no required parameter is unknown to the editor. Every action it can insert, with every value it proposes for any of its parameters, yields a configuration file which loads on the device (all its imports included), and an action which can be put on a switch (or pedal or wheel), operated and updated without an error; every mapping it proposes can be created.",
  ["inputs", "programs"], "all definitions and all values the editor proposes for them",
  "Definitions and firmware are separate files; the unit tests of the firmware never read the definitions.",
  ["web/htdocs/definitions/actions.json", "web/htdocs/definitions/mappings.json", "web/htdocs/definitions/callbacks.json", "web/htdocs/definitions/meta.json", "web/htdocs/python/parser/PySwitchParser.py", "content/lib/pyswitch/clients/kemper/actions/rig_select.py"],
  [("PySwitchParser._generate_action_imports", "web/htdocs/python/parser/PySwitchParser.py"), ("definitions", "web/htdocs/definitions/actions.json")])

prop("C50", "Ready-made actions obey the settings they are given",
  "For every ready-made action of the three clients: its ID is the one given; its enable callback alone decides whether it is enabled, and without one it always is; while it is disabled it sends nothing and touches neither its label nor the LEDs, whatever the device reports and however the switch is pressed, and enabled again it shows itself; without use_leds the LEDs of the switch are left alone; color and text given are shown on its own label and LEDs; the push button mode given decides what a press and a short or long release switch. The ready-made encoder actions take their ID and enable callback likewise.",
  ["inputs", "histories"], "all ready-made actions, all combinations of the settings, all reported values, all hold times",
  "Every factory has to pass every setting on; a unit test would be needed for each pair of action and setting, and for each reported value.",
  ["clients/kemper/actions/effect_state.py", "clients/kemper/actions/looper.py", "clients/boomerang/actions/boomerang.py", "clients/local/actions/binary_switch.py", "clients/local/actions/pager.py", "controller/actions/__init__.py"],
  [("Action.__init__", "controller/actions/__init__.py"), ("EFFECT_STATE", "clients/kemper/actions/effect_state.py"), ("_BOOMERANG_ACTION", "clients/boomerang/actions/boomerang.py")])

prop("C51", "Pedals and wheels reach exactly their enabled actions",
  "Each action on a pedal or wheel is set up exactly once, and updated regularly if it can be. Every poll hands the current position to each enabled action of the input exactly once, in order, and to no other. An action disabled by its enable callback sends and shows nothing wherever the input is moved; turns of a wheel made meanwhile have no effect later, and the other actions of the input are not disturbed.",
  ["inputs", "configurations", "histories"], "any number of actions, any enabled patterns, all positions",
  "Tests use one action per input.",
  ["controller/inputs.py", "controller/actions/AnalogAction.py", "controller/actions/EncoderAction.py"], [("ContinuousController.process", "controller/inputs.py"), ("AnalogAction.enabled", "controller/actions/AnalogAction.py")])

prop("N02", "Web MIDI bridge transfers files intact",
  "A file sent from the web editor to the device over the SysEx bridge arrives byte for byte identical, whatever its size, and a lost chunk leads to an error instead of a truncated file.",
  ["inputs", "fault_sequences"], "all files, all transfer faults",
  "Needs the JavaScript bridge and the precompiled device counterpart together.",
  ["web/htdocs/lib/jsmidibridge/JsMidiBridge.js"], [("JsMidiBridge", "web/htdocs/lib/jsmidibridge/JsMidiBridge.js")])

prop("N03", "No memory exhaustion and bounded reaction time on the device",
  "With any supported configuration the firmware never runs out of memory after start and reacts to every switch press within the documented time.",
  ["configurations", "schedules"], "all configurations on the real hardware",
  "Tests run on a desktop interpreter.",
  ["controller/controller.py", "stats.py"], [("Memory watch", "stats.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
