import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
                   **({'observe_at':observe} if observe else {}),hook_needed=None)))
L='lib/'
p('E01','Events follow the NCL event state machine',
 "An event changes state only through a legal transition: start takes a sleeping or paused event to occurring, pause takes occurring to paused, resume takes paused to occurring, stop and abort take occurring or paused to sleeping. Every other request is refused: it reports failure, the state does not change, and the object owning the event is not consulted.",
 ['inputs','histories'],"every event, every current state, every requested transition, whatever the owning object answers",
 "The Event-* tests try a few transitions on one media object; they cannot reach every (state, transition, owner answer) combination for every kind of event.",
 [L+'Event.cpp',L+'Event.h'],[('Event::transition','lib/Event.cpp')],[('state','sleeping/occurring/paused','lib/Event.h Event::_state')],['Event::transition','Event::getState'])
p('E02','A transition either completes or leaves the event unchanged',
 "A legal transition request first asks the owning object while the event is still in its old state, then enters the new state, then asks the owning object to finish; it reports success exactly when the object accepts both times. If the object refuses before the change the event is not moved and the finish step is not run, and if it refuses at the finish the event is put back in the state it had when the request was made.",
 ['inputs','histories','fault_sequences'],"every event, transition, and every combination of answers (accept/refuse) of the owning object",
 "No test makes an object refuse at the finish step, and the order of the two consultations relative to the state change is never observed.",
 [L+'Event.cpp'],[('Event::transition','lib/Event.cpp'),('beforeTransition/afterTransition protocol','lib/Object.h')],None,['Event::transition','Event::getState'])
p('E03','Event naming and classification',
 "The full id of an event is its object's id followed by: '@' and its id for presentation events (the main presentation event, whose id is already '@lambda', gets no second '@'), '.' and its id for attribution events, its id in angle brackets for selection events, '<lookat>' for look-at events; an event is the main presentation event exactly when it is a presentation event with id '@lambda'. Parsing a transition name, in any letter case, gives back the transition it names, and the names of types, states and transitions are all distinct.",
 ['inputs'],"every event type, object id and event id string; every transition name in every letter case",
 "Tests compare a handful of fixed ids.",
 [L+'Event.cpp'],[('Event::getFullId','lib/Event.cpp'),('Event::isLambda','lib/Event.cpp'),('Event::getStringAsTransition','lib/Event.cpp')])
p('E04','Event parameters, labels and intervals behave as stored values',
 "Reading a parameter of an event returns the value last stored under exactly that name and reports success; reading a name never stored reports failure and leaves the caller's variable untouched; storing one parameter reports whether the name was new and changes no other parameter. The interval and the label of an event read back exactly as last set, an event has a label exactly when its label is not empty, and a new event is sleeping with interval from zero to undefined.",
 ['inputs','histories'],"every sequence of stores and reads, every name and value",
 "Tests store and read one or two names.",
 [L+'Event.cpp'],[('Event::getParameter/setParameter','lib/Event.cpp'),('Event::getInterval/setInterval','lib/Event.cpp')])
p('O01','An object has at most one event per type and id',
 "Adding an event of a given type and id to an object that already has such an event changes nothing; otherwise it adds exactly one new sleeping event of that type and id, owned by that object, and keeps every existing event. Looking up an event by type and id (or a presentation event by label) returns an event of the object matching exactly, and returns nothing exactly when no event matches; every object has its main presentation event from birth.",
 ['inputs','histories'],"every object, every set of already registered events, every type, id and label",
 "Object-* tests register up to a handful of events; uniqueness must hold for every history of registrations.",
 [L+'Object.cpp'],[('Object::getEvent','lib/Object.cpp'),('Object::add*Event','lib/Object.cpp'),('Object::Object','lib/Object.cpp')],[('event set','all events of an object','lib/Object.h Object::_events')])
p('O02','Object properties and aliases read back as stored',
 "Reading a property of an object returns the value last set under that name, or the empty string when it was never set, and setting one property changes no other. An object has an alias exactly when that alias was added to it, and adding the same alias for the same composition again has no effect.",
 ['inputs','histories'],"every sequence of property writes and alias registrations, every name",
 "Tests use one or two names.",
 [L+'Object.cpp',L+'Context.cpp',L+'Media.cpp'],[('Object::getProperty/setProperty','lib/Object.cpp'),('Object::hasAlias/addAlias','lib/Object.cpp')])
p('O03','Ticks advance exactly the clocks of occurring objects',
 "A tick adds exactly the elapsed time to the playback time of an object that is occurring, and leaves an object that is sleeping or paused completely unaffected. Starting an object sets its playback time to zero; stopping it makes its time undefined.",
 ['inputs','histories'],"every object state, every elapsed time, every pending-action list",
 "Tests send a few fixed ticks to running media.",
 [L+'Object.cpp'],[('Object::sendTick','lib/Object.cpp'),('Object::doStart/doStop','lib/Object.cpp')],[('playback time','time since start','lib/Object.h Object::_time')])
p('O04','Delayed actions fire once, in order, exactly when due',
 "An action delayed by d on an object falls due when the object's playback time reaches the time of the request plus d. A tick fires exactly the pending actions that are due, each once and in the order they were requested, stops firing as soon as the object is no longer occurring, and keeps the actions that are not yet due in order; stopping the object discards all pending actions.",
 ['inputs','histories'],"every list of pending actions with arbitrary due times, every tick length, every effect the fired actions have on the object",
 "Tests schedule one or two delays; order, exactly-once and survival of the others for arbitrary lists is not exercised.",
 [L+'Object.cpp'],[('Object::addDelayedAction','lib/Object.cpp'),('Object::sendTick','lib/Object.cpp'),('Object::doStop','lib/Object.cpp')],[('pending actions','list of (action, due time)','lib/Object.h Object::_delayed')])
p('O05','Starting and stopping an object keeps lifecycle bookkeeping exact',
 "When an object starts, its playback time becomes zero, the count of awake children of its enclosing context (if its parent is a context) goes up by exactly one, and a focus update is requested exactly when it has a non-empty focusIndex. When it stops, its time becomes undefined, every one of its events becomes sleeping, its pending actions are discarded and the count of its enclosing context goes down by exactly one; no other context's count changes.",
 ['inputs','histories'],"every object, every parent kind (none, context, switch), every set of events in every state",
 "The count is private and is only seen through end-of-context detection; tests cover one or two children.",
 [L+'Object.cpp',L+'Context.cpp'],[('Object::doStart/doStop','lib/Object.cpp'),('Context::incAwakeChildren/decAwakeChildren','lib/Context.cpp')],[('awake children','number of started children','lib/Context.h Context::_awakeChildren')])
p('D01','A document never holds two objects answering to one id',
 "Adding an object to a document is refused, with no change, when that object is already there or when its id is already the id or an alias of an object of the document; otherwise the object is recorded, becomes reachable by its id, learns its document and enters exactly the collection of its kind (media, context or switch). Looking up an id or alias returns an object of the document whose id is that string if there is one, else one having that alias, else nothing.",
 ['inputs','histories'],"every document content, every object of every kind, every id and alias",
 "No stable test adds conflicting ids; the guarantee is about all histories of additions.",
 [L+'Document.cpp'],[('Document::addObject','lib/Document.cpp'),('Document::getObjectById(OrAlias)','lib/Document.cpp')],[('object registry','objects and id index','lib/Document.h')])
p('D02','Property references resolve to the referenced property',
 "A string of the form '$id.name' (split at the first dot) whose id is the id or alias of an object of the document resolves to the current value of that property of that object. Any other string does not resolve: failure is reported and the caller's result is left untouched.",
 ['inputs'],"every reference string (empty, without '$', without dot, several dots, unknown id) and every document",
 "Tests resolve a few well-formed references.",
 [L+'Document.cpp'],[('Document::evalPropertyRef','lib/Document.cpp')])
p('D03','Composition membership',
 "Adding an object to a composition that does not have it makes it a child, sets the composition as its parent and registers it in the document; adding it again changes nothing. Looking up a child by id returns a child with that id, or nothing when no child has it; looking up by id or alias prefers an id match over an alias match.",
 ['inputs','histories'],"every composition content, every id and alias",
 "Tests add one or two children.",
 [L+'Composition.cpp',L+'Object.cpp'],[('Composition::addChild','lib/Composition.cpp'),('Composition::getChildById(OrAlias)','lib/Composition.cpp')])
p('D04','A document owns its objects, events and conditions',
 "A new document has exactly a root context and, as its only child, the settings object, both reachable by their ids. Deleting a document stops its root and releases each object of the tree, each event of an object and each condition of its links and switch rules, exactly once; nothing it owned is left.",
 ['inputs','histories'],"every tree of compositions, every set of events, links and rules",
 "Tests delete documents but do not observe what is released; the tree and the links are unbounded.",
 [L+'Document.cpp',L+'Context.cpp',L+'Switch.cpp',L+'Object.cpp',L+'Predicate.cpp',L+'MediaSettings.cpp'],[('Document::Document','lib/Document.cpp'),('Context::~Context','lib/Context.cpp'),('Switch::~Switch','lib/Switch.cpp'),('Object::~Object','lib/Object.cpp')])
p('P01','Conditions evaluate to their boolean meaning',
 "Evaluating a condition yields: false and true for the constants, the result of the named string comparison (equal, not equal, and the four lexicographic orders) for a test after replacing each operand that is a resolvable property reference by that property's value, the negation of its operand for a negation, 'all operands true' for a conjunction and 'some operand true' for a disjunction. Evaluation changes nothing in the document.",
 ['inputs','programs'],"every condition tree of every depth and width, every operand string, every document",
 "No test evaluates conditions in a document at all; trees are unbounded.",
 [L+'Document.cpp',L+'Predicate.cpp'],[('Document::evalPredicate','lib/Document.cpp'),('Document::evalPropertyRef','lib/Document.cpp')])
p('P02','Condition trees are built and copied faithfully',
 "A test stores and returns exactly the operands and operator it was given; adding an operand to a connective appends it last and makes the connective its parent, leaving the others in order. A copy of a condition has the same type, the same test (for tests) and, for connectives, copies of the operands in the same order, shares no node with the original, and leaves the original unchanged.",
 ['inputs','programs'],"every condition tree",
 "Predicate-new only constructs nodes; copying trees is not tested.",
 [L+'Predicate.cpp'],[('Predicate::clone','lib/Predicate.cpp'),('Predicate::addChild','lib/Predicate.cpp'),('Predicate::setTest/getTest','lib/Predicate.cpp')])
p('L01','A link fires exactly when its condition matches',
 "When a transition happens while a context's links are enabled, the actions of a link are requested once for each of its conditions that names that same event and that same transition and whose predicate (if any) holds, and no other link's actions are requested; when the links are disabled nothing is requested. Requested actions without delay run in the order the link lists them; an action with a delay is not run now but is scheduled on the context with exactly that delay, delays given as property references being resolved first.",
 ['inputs','programs','histories'],"every context with any number of links, conditions and actions; every event and transition; every predicate outcome and delay",
 "No stable test triggers links (they need the formatter); the space of link sets is unbounded.",
 [L+'Document.cpp',L+'Context.cpp'],[('Document::evalActionInContext','lib/Document.cpp'),('Context::addLink','lib/Context.cpp')])
p('L02','Running an action propagates only successful transitions',
 "Running an action stores its duration (and, for attribution, its value) on the event and then requests the transition; links are looked up only for transitions that succeeded: in the enclosing context if occurring, in the context above it once per port of the enclosing context that exposes the event's object, in the object itself when it is a context, and otherwise in the contexts of the object's aliases; and, if the enclosing composition is a switch, the same action is run, apart, on the label event of every switch port that maps to the event's object. Newly requested actions run before older pending ones, and the reported number is exactly the number of transitions that succeeded in the chain of requested actions.",
 ['inputs','programs','histories'],"every event, action, enclosing structure and every outcome of each transition",
 "Needs a full document with links; no stable test runs it.",
 [L+'Document.cpp'],[('Document::evalAction','lib/Document.cpp')])
p('C01','Starting a context starts what its ports expose',
 "When a context is started directly, a start with zero delay is scheduled on it for every presentation event exposed by its ports, in port order, and for nothing else; when it was woken up by one of its own children it schedules none of them. Starting a context whose enclosing context is sleeping also starts the enclosing context, marked as woken up by a child.",
 ['inputs','histories'],"every list of ports of every event type, every parent, every start history",
 "Context tests start empty contexts.",
 [L+'Context.cpp'],[('Context::afterTransition','lib/Context.cpp'),('Context::addPort','lib/Context.cpp')])
p('C02','Context transitions reach every child',
 "When a context is stopped, paused, resumed or aborted, the same transition is requested on the main presentation event of each of its children, once each and nothing else, before the context's own state changes, whatever the children answer. Starting a context requests nothing of its children beforehand, and selection of a context is always refused.",
 ['inputs','histories','fault_sequences'],"every set of children of every size, every answer of each child",
 "Tests use contexts with no or one child.",
 [L+'Context.cpp'],[('Context::beforeTransition','lib/Context.cpp')])
p('C03','A context ends exactly when nothing in it is awake',
 "On each tick, after advancing its clock, a context that has no awake child requests its own stop; the outermost context does so when the only awake child is the settings object. In every other case the tick does not request that the context stop.",
 ['inputs','histories'],"every count of awake children, nested and outermost contexts",
 "Needs complete presentations; not covered by stable tests.",
 [L+'Context.cpp'],[('Context::sendTick','lib/Context.cpp')])
p('C04','Attribution sets the property and ends after its duration',
 "When an attribution event of a context or a media object starts, the property named by the event receives the event's value, property references in the value being replaced by the property they refer to, and the end of the attribution is scheduled after exactly the event's duration (zero if none). No other property of the object changes.",
 ['inputs','histories'],"every property name, value, reference, duration",
 "Tests attribute one or two literal values without durations.",
 [L+'Context.cpp',L+'Media.cpp'],[('Context::afterTransition','lib/Context.cpp'),('Media::afterTransition','lib/Media.cpp')])
p('S01','A switch starts the first alternative whose rule holds',
 "Starting a switch (or one of its ports) examines its rules in order, skipping those whose component is not reachable through what is being started, and starts the component event of the first rule whose condition holds; no other component is started and no later condition is evaluated. If no rule qualifies, or the chosen component refuses to start, the switch does not start.",
 ['inputs','programs'],"every rule list, every port mapping, every outcome of each condition and of the component's start",
 "Switch-transition-attribution does not start a switch with rules.",
 [L+'Switch.cpp'],[('Switch::beforeTransition','lib/Switch.cpp'),('Switch::addRule','lib/Switch.cpp')])
p('S02','A switch forwards transitions to the selected component',
 "Stopping, aborting, pausing or resuming a switch requests the same transition of the main presentation event of the selected component, and of no other component; the selection survives pause and resume and is forgotten on stop and abort. A switch without selection forwards nothing, and a switch port maps exactly the component events last given for its id.",
 ['inputs','histories'],"every history of start/pause/resume/stop/abort of a switch",
 "No stable test starts a switch with components.",
 [L+'Switch.cpp'],[('Switch::beforeTransition','lib/Switch.cpp'),('Switch::addSwitchPort','lib/Switch.cpp')])
p('M01','A media object owns a player exactly while it is presented',
 "Starting the main presentation of a sleeping media object creates one player from the object's uri and type, hands it every property of the object and starts it; if no player can be created the start is refused. Stopping or aborting the main presentation stops the player if it is still running and discards it, and performs the object's stop bookkeeping exactly once; without a player that bookkeeping is not performed.",
 ['inputs','histories','fault_sequences'],"every property set, every uri/type, player creation success or failure, every player state at stop",
 "Players cannot be created in the stable tests (the player code is not built).",
 [L+'Media.cpp',L+'Player.cpp'],[('Media::beforeTransition','lib/Media.cpp'),('Media::doStop','lib/Media.cpp')])
p('M02','Starting a media object schedules its anchors',
 "When the main presentation of a media object starts, for each of its unlabelled anchors a start is scheduled at the anchor's begin time and a stop at its end time, and nothing is scheduled for labelled anchors or for events that are not presentation anchors. Pausing or resuming the media object requests the same of each of its anchors and of its player.",
 ['inputs','histories'],"every set of events with arbitrary intervals and labels",
 "Needs players; not in stable tests.",
 [L+'Media.cpp'],[('Media::afterTransition','lib/Media.cpp'),('Media::beforeTransition','lib/Media.cpp')])
p('M03','Setting a property of a media object reaches its player',
 "Setting a property of a media object records the value; if the object has a player, the player receives that property and value immediately when the duration is zero, or exactly one animation from the previous value to the new value over that duration when it is positive. Without a player nothing else happens.",
 ['inputs','histories'],"every name, value, previous value, duration, with and without player",
 "Needs players; not in stable tests.",
 [L+'Media.cpp'],[('Media::setProperty','lib/Media.cpp')])
p('M04','Keys trigger exactly the selection events bound to them',
 "A key press (release) delivered to a presented media object starts (stops) exactly those of its selection events that are bound to that key, or that are bound to no key (or to an unresolved reference) when the key is ENTER and the object has the focus; a sleeping object reacts to no key. Pressing a cursor key on the focused object requests a focus move to the index that its corresponding move property names, if it names one, and the key is passed on to the player only when focused.",
 ['inputs','histories'],"every set of selection events and key bindings, every key string, press or release, focused or not",
 "Needs players; not in stable tests.",
 [L+'Media.cpp'],[('Media::sendKey','lib/Media.cpp')])
p('M05','A media object ends at end of stream or past its duration',
 "On a tick of a media object with a player, the player's clock advances by the elapsed time, and the object requests its own stop exactly when the player signals end of stream or its playback time exceeds a defined duration. Without a player the tick requests no stop.",
 ['inputs','histories'],"every elapsed time, duration and player state",
 "Needs players; not in stable tests.",
 [L+'Media.cpp'],[('Media::sendTick','lib/Media.cpp')])
p('M06','Starting an anchor of a sleeping media object starts it there',
 "Starting a time anchor of a sleeping media object first starts the object itself, then moves its player to the anchor's begin time and, if the anchor has an end, limits the player to the anchor's length and schedules the stop of the anchor at its end. Of the actions then pending, those due outside the anchor's interval are dropped, the starts due before it being carried out at once, and the others become due earlier by the begin time, in the same order. Starting an anchor of an object that is already awake does none of this.",
 ['inputs','histories'],"every set of pending actions, every anchor interval (with or without begin and end), enclosing context asleep or not",
 "Needs players; not in stable tests.",
 [L+'Media.cpp',L+'Event.cpp'],[('Media::beforeTransition','lib/Media.cpp')])
p('F01','Focus is assigned to the lowest focus index on screen',
 "A pending focus update is carried out at the next tick of the settings object, once: the current focus becomes the requested index, or, if none was requested, the smallest (in string order) non-empty focusIndex among the media objects then occurring, or empty if there is none. Writing the current-focus property of the settings object makes that value the focus used by players.",
 ['inputs','histories'],"every set of media objects, states and focus indexes, every request history",
 "Needs a document with players; not in stable tests.",
 [L+'MediaSettings.cpp'],[('MediaSettings::updateCurrentFocus','lib/MediaSettings.cpp'),('MediaSettings::scheduleFocusUpdate','lib/MediaSettings.cpp'),('MediaSettings::sendTick','lib/MediaSettings.cpp')])
p('A01','An animation moves monotonically to its target and stops there',
 "Each update of an animation moves its value toward the target by at most the distance covered at constant speed (total distance over duration) in the elapsed time (up to floating-point rounding) and never past the target; once the elapsed time reaches the duration the value is exactly the target and the animation is finished. An animation with zero duration is finished, at the target, after one update.",
 ['inputs','histories'],"every start, target, duration and sequence of update times",
 "No test covers animation; it is arithmetic over all inputs.",
 [L+'PlayerAnimator.cpp'],[('AnimInfo::init/update','lib/PlayerAnimator.cpp')])
p('A02','Animating a property schedules the right components',
 "Animating bounds schedules left, top, width and height, location schedules left and top, size schedules width and height, background schedules its red, green and blue parts, each from the corresponding item of the old value (or from the current value when the old one is empty) to the corresponding item of the new value over the given duration; any other property schedules just itself. Percent values are relative to the screen width for left and width, to the screen height for top and height, and to 255 for transparency.",
 ['inputs'],"every property name, old and new value, duration",
 "No test covers animation.",
 [L+'PlayerAnimator.cpp'],[('PlayerAnimator::schedule/doSchedule','lib/PlayerAnimator.cpp')])
p('A03','A player shows the value of its animations and drops the finished ones',
 "Each update of a player's animations starts every pending animation that has no old value from the value then shown, advances each to the time of the player, and shows for left, top, width, height, transparency and the parts of the background color the (rounded, clamped) value of the last animation of that property; what is not animated stays as it is (wipe transitions are not covered). The animations that are finished, and no other, are then dropped, and every dropped animation is released once.",
 ['inputs','histories'],"every list of pending animations, shown value and time",
 "No test covers animation.",
 [L+'PlayerAnimator.cpp'],[('PlayerAnimator::update','lib/PlayerAnimator.cpp'),('PlayerAnimator::clear/~PlayerAnimator','lib/PlayerAnimator.cpp')])
p('V01','Number strings convert with saturation',
 "Converting a number string to a signed or unsigned integer of a given width yields the number it denotes in the given base, or the nearest value representable in that width when it is out of range. A string that does not begin with a number is rejected rather than converted.",
 ['inputs'],"every string, base and width",
 "aux-* tests sample a few strings per width.",
 [L+'aux-ginga.cpp'],[('xstrto*','lib/aux-ginga.cpp'),('_xstrtoll/_xstrtoull/_xstrtod','lib/aux-ginga.cpp')])
p('V02','Percent and pixel values are rounded and clamped',
 "Converting a number or percent string relative to a base yields the number (or that percentage of the base) rounded to the nearest integer, halves away from zero, and limited to the given minimum and maximum, however large the number is; pixel values are this with base and maximum 255 and minimum 0. A string is a percent value exactly when '%' directly follows its leading number, and then denotes that number divided by one hundred.",
 ['inputs'],"every string, base, minimum and maximum",
 "aux-parse_percent style tests sample a few values.",
 [L+'aux-ginga.cpp'],[('parse_percent/parse_pixel','lib/aux-ginga.cpp'),('xstrtodorpercent/xstrispercent','lib/aux-ginga.cpp')])
p('V03','Time strings denote durations',
 "A time string 'N' or 'Ns' denotes N seconds and 'H:M:S' denotes 3600*H + 60*M + S seconds, as nanoseconds, ignoring trailing blanks; fractional numbers are allowed, and an absent number counts as zero. (Durations that are not negative and fit in the time type.) Any other string is rejected and leaves the caller's variable untouched.",
 ['inputs'],"every string",
 "aux tests sample a few time strings.",
 [L+'aux-ginga.cpp'],[('try_parse_time','lib/aux-ginga.cpp')])
p('V04','Lists, tables and booleans parse to their contents',
 "Splitting a list string yields its items in order with surrounding blanks removed (an empty last item is not counted), and is rejected, leaving the output untouched, when the number of items is outside the given limits; the words 'true' and 'false', in any letter case, and nothing else, parse as booleans. A table string '{k=\"v\",...}', whose keys and values contain no ',' or '=', parses to exactly its key/value pairs, and any string not of that form is rejected, leaving the output untouched.",
 ['inputs'],"every string, separator and limits",
 "aux tests sample a few strings.",
 [L+'aux-ginga.cpp'],[('try_parse_list/try_parse_table/try_parse_bool','lib/aux-ginga.cpp'),('xstrsplit/xstrstrip','lib/aux-ginga.cpp')])
p('V05','Paths and URIs',
 "A source that is already a URI (a scheme of two or more characters) is used as it is; any other is turned into the file URI of the absolute path, relative sources being taken relative to the given base directory. An absolute path is never changed by making it absolute.",
 ['inputs'],"every source and base string",
 "aux tests sample a few paths.",
 [L+'aux-ginga.cpp'],[('xurifromsrc','lib/aux-ginga.cpp'),('xpathisuri/xpathmakeabs/xpathbuildabs','lib/aux-ginga.cpp')])
p('U01','User data is kept per key and released exactly once',
 "Data attached under a key is returned unchanged for that key until it is replaced or removed, and other keys are unaffected; attaching a null value removes the key, whether or not it was present. Each attached value that came with a release function is released exactly once: when it is replaced, when it is removed, or when the holder is destroyed.",
 ['inputs','histories'],"every sequence of set/get/destroy, every key, value and release function",
 "No stable test removes a missing key or counts releases over histories.",
 [L+'aux-ginga.cpp'],[('UserData::getData/setData/~UserData','lib/aux-ginga.cpp')])
p('X01','The parser accepts only well-formed elements',
 "An element of an NCL document is accepted only if it is a known element, its parent is one of the parents allowed for it, every required attribute is present, attributes that must be non-empty, a valid name or a unique id are so, and every attribute and child is allowed for it; the first violation makes the whole parse fail with a message. Ids are unique across the document, ids of imported documents being qualified by their alias.",
 ['inputs','programs'],"every XML document",
 "The ParserXML tests are not in the stable set (they need the player code); documents are unbounded.",
 [L+'Parser.cpp'],[('ParserState::checkNode','lib/Parser.cpp'),('parser_syntax_table','lib/Parser.cpp')])
p('X02','Bind and link parameters shadow in the documented order',
 "A value of a connector role that starts with '$' takes the value of the parameter it names: that of the bind if the bind gives it, else that of the link, else it is empty; any other value is used literally. A parameter value that itself starts with '$' stands for the object property bound to the role it names outside the roles of the connector, if the link has such a bind, and is otherwise left as it is.",
 ['inputs','programs'],"every combination of parameter maps and reference strings",
 "Needs the parser and players; not in stable tests.",
 [L+'Parser.cpp'],[('ParserState::resolveParameter','lib/Parser.cpp')])
p('X03','Nested regions are laid out relative to their parent',
 "The position and size of a region are computed from its left, right, top, bottom, width and height attributes relative to the rectangle of the enclosing region (the screen at the outermost level), absent sizes and distances being those of the enclosing region, and the attributes given to the media that use it, right and bottom included, are restated relative to the screen (both opposite distances given at once is left open). Leaving a region restores the rectangle of the enclosing one, and a region declared later gets a higher z-order.",
 ['inputs','programs'],"every nesting of regions and every attribute combination",
 "Parser tests with regions are not in the stable set.",
 [L+'Parser.cpp'],[('ParserState::pushRegion/popRegion','lib/Parser.cpp')])
p('X04','Interfaces and components resolve to the designated event',
 "A component and interface pair in a port, bind or mapping resolves to the event it designates: an anchor, a property, a port followed recursively through nested contexts, or the main presentation event when no interface is given; otherwise parsing fails. A component is the scope itself, one of its children, or a media object that refers to another one, which stands for the object referred to (the settings object included) whatever the order of their declarations.",
 ['inputs','programs'],"every document structure",
 "Parser tests are not in the stable set.",
 [L+'Parser.cpp'],[('ParserState::resolveInterface/resolveComponent','lib/Parser.cpp')])
p('X05','A failed parse yields no document',
 "Parsing a buffer or file yields a document exactly when no error was found; otherwise no document is returned, a non-empty message is reported when asked for, and the document under construction is deleted. Whether a message is asked for does not matter otherwise, and no input makes the parser stop the program.",
 ['inputs','programs','fault_sequences'],"every input buffer or file",
 "Parser tests are not in the stable set.",
 [L+'Parser.cpp'],[('Parser::parseBuffer/parseFile','lib/Parser.cpp')])
p('X06','Lua and XML notations build equivalent documents',
 "A document written in the table (Lua) notation builds the same objects, events, ports, links and conditions as its XML counterpart.",
 ['inputs','programs'],"every document expressible in both notations",
 "Only sampled by tests that are not in the stable set.",
 [L+'ParserLua.cpp',L+'Parser.cpp'],[('ParserLua::parseBuffer','lib/ParserLua.cpp')])
p('X07','Connectors and links are recorded as written',
 "Each condition or action of a connector has the event type and transition of its reserved role, or those written with a free role, and a role on the wrong side, contradicted, unknown or incomplete, or a connector without a condition or an action, is refused. A link holds, in the order of its binds, one condition or action per bind of such a role, on the event its component, interface and key designate, with the value, duration and delay of the role; a link that leaves a role unbound or binds it to an event of another type is refused.",
 ['inputs','programs'],"every connector and every link",
 "Parser tests are not in the stable set.",
 [L+'Parser.cpp'],[('ParserState::pushSimpleCondition/popCausalConnector','lib/Parser.cpp'),('ParserState::pushLink/pushBind/popNcl','lib/Parser.cpp')])
p('X08','Rules and assessments denote the predicates they spell',
 "A rule compares the settings variable it names with its value by the comparator it names, and a composite rule or compound statement combines its children by the connective (and the negation) it names; those with an unknown comparator or connective or with a wrong number of children are refused. The predicate of a condition of a link is the conjunction of the statements of the compound conditions around it, each property role standing for the property bound to it, and a switch tries its rules in the order written with its default components last.",
 ['inputs','programs'],"every rule, every statement, every property value",
 "Parser tests are not in the stable set.",
 [L+'Parser.cpp'],[('ParserState::pushRule/pushCompoundStatement/popAssessmentStatement','lib/Parser.cpp'),('ParserState::obtainPredicate/solvePredicate','lib/Parser.cpp')])
p('X09','The body builds the objects, anchors and properties it declares',
 "Every context, switch and media object of the body becomes an object of that kind with its id, inside the composition that encloses it; every area an anchor with its interval (the whole object by default) or its label, and every property an attribute with its value if one is given. An interval that is no time, an area with both a label and an interval, and a media object with both a reference and a source or type are refused.",
 ['inputs','programs'],"every document body",
 "Parser tests are not in the stable set.",
 [L+'Parser.cpp'],[('ParserState::pushContext/pushSwitch/pushMedia','lib/Parser.cpp'),('ParserState::pushArea/pushProperty','lib/Parser.cpp')])
p('X10','A media object gets the properties of its descriptor',
 "A media object that names a descriptor has every attribute and parameter of the descriptor, those of the region it names (which take precedence over the descriptor's) and a description of each transition it names, as properties, except those that the media object declares itself. A descriptor, region or transition that is named but not declared is refused.",
 ['inputs','programs'],"every combination of descriptors, regions and transitions",
 "Parser tests are not in the stable set.",
 [L+'Parser.cpp'],[('ParserState::pushDescriptorParam/popNcl','lib/Parser.cpp')])
p('R01','Player properties take effect with defaults and bounds',
 "Setting a known property of a player, under its name or one of its alternative names, applies the parsed value or the property's default when the value is empty; an unknown property is stored without effect on known ones. Reading the geometry, transparency, focus index, z-order and duration returns what was applied.",
 ['inputs','histories'],"every property name and value",
 "The player code is not built in the stable configuration.",
 [L+'Player.cpp'],[('Player::setProperty/doSetProperty','lib/Player.cpp'),('Player::getPlayerProperty','lib/Player.cpp')])
p('R02','A player follows sleeping, occurring, paused',
 "A player is started only when not occurring, stopped only when not sleeping, paused only when occurring and resumed only when paused, and is then in the corresponding state. Its clock is zero and its end-of-content mark clear at start, and the clock otherwise advances by exactly the elapsed time given.",
 ['inputs','histories'],"every sequence of player calls",
 "The player code is not built in the stable configuration.",
 [L+'Player.cpp'],[('Player::start/stop/pause/resume/incTime','lib/Player.cpp')])
p('R03','The presented size and stacking order',
 "Media are drawn in increasing order of z-index and, within one z-index, of z-order, so that a higher one covers a lower one; comparison is consistent (antisymmetric and transitive) for every pair.",
 ['inputs'],"every pair and triple of media",
 "The formatter is not built in the stable configuration.",
 [L+'Formatter.cpp'],[('zcmp','lib/Formatter.cpp'),('Formatter::redraw','lib/Formatter.cpp')])
p('R04','A media object is presented by the player of its type',
 "The type of a media object is the one declared, else that of the file name extension of its uri (the part after the last dot, for the extensions listed), else that of a timer, and is recorded as its property type. The player is the video player for audio and video, the signal generator, image, text and script players for their types, the remote player for objects of a remote device that are none of the former, and otherwise an empty one, made for that media object and formatter; NCL as media and a uri of unknown type are rejected.",
 ['inputs'],"every type string, uri and media object",
 "Tests create players of two or three types by hand.",
 [L+'Player.cpp'],[('Player::createPlayer','lib/Player.cpp'),('Player::getMimeForURI','lib/Player.cpp'),('mime_table','lib/Player.cpp')])
p('G01','The formatter runs one presentation at a time',
 "Starting a stopped formatter with a valid document begins its presentation and reports success; starting a running one, or one whose document fails to parse or start, reports failure and leaves it stopped (or running as it was). Stopping a stopped formatter reports failure and changes nothing; stopping a running one ends the presentation and releases the document.",
 ['inputs','histories'],"every sequence of start/stop calls and every file",
 "The formatter is not built in the stable configuration.",
 [L+'Formatter.cpp'],[('Formatter::start/stop','lib/Formatter.cpp')])
p('G02','Keys and ticks reach every presented media in order',
 "Each key or tick given to a running formatter is delivered to every object that was presented when it arrived, exactly once, and to none when the formatter is stopped.",
 ['inputs','histories'],"every set of objects, every reaction of an object to the input",
 "The formatter is not built in the stable configuration.",
 [L+'Formatter.cpp'],[('Formatter::sendKey/sendTick','lib/Formatter.cpp')])
p('W01','Remote devices receive each assigned media once',
 "A media object marked for a remote device is offered to exactly one matching registered remote player, and its actions are posted in the order they occur.",
 ['schedules','histories','fault_sequences'],"every arrival order of devices and requests",
 "Needs network services.",
 [L+'WebServices.cpp',L+'PlayerRemote.cpp'],[('WebServices','lib/WebServices.cpp'),('PlayerRemote','lib/PlayerRemote.cpp')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
for x in P:
    assert len(x['title'])<=80,x['id']
    n=x['statement'].count('. ')+1
    if n>3: print('sentences',x['id'],n)
