// Single source of properties.jsonl and MANIFEST.json (run: node tools/gen.mjs)
const p = (id, title, statement, over, text, why, files, mechanism, note) => ({ id, title, statement, over, text, why, files, mechanism, note })
const pk = n => `packages/${n}/src/index.ts`
const SC = 'packages/shared-chat/src/utils'

export default [
  p('P01', 'Request bodies carry exactly the caller\'s options, and nothing local',
    'For every client call, the body that is sent contains exactly the caller\'s defined options under the provider\'s wire names (top-level option names in snake_case, nested values and tool schemas untouched, explicitly undefined options omitted) plus the documented defaults of that endpoint. Falsy values such as 0, false, empty string and null are sent. Local-only settings - credentials, base URL, headers, transport, abort signal, callbacks, hooks, stop conditions, tool implementations and validators - never appear in the body, and uploaded files keep their bytes, type and name.',
    ['inputs', 'configurations'], 'every entry point, every combination of named, unknown, falsy and undefined options',
    'Tests check one or two fixed option sets per endpoint; option combinations, falsy values and unknown keys are unbounded.',
    ['packages/shared/src/utils/request-body.ts', 'packages/shared/src/utils/clean.ts', `${SC}/chat.ts`, pk('generate-transcription'), 'packages-ext/responses/src/utils/responses.ts'],
    [['option cleaning and key conversion', 'packages/shared/src/utils/request-body.ts'], ['chat body', `${SC}/chat.ts`]],
    'expected body is computed from the generated options by an independent mapping'),
  p('P02', 'Calls reach the right URL with the right method, headers and transport',
    'Every call is sent once, to the endpoint path appended to the base URL path regardless of a trailing slash and of string or URL form, with the endpoint\'s method, through the caller\'s own transport when one is given and the platform one otherwise, carrying the caller\'s abort signal. The bearer credential is sent exactly when a key is given, JSON bodies are labelled as JSON and form bodies are not. Headers the caller supplies, as an object or as a headers collection, arrive and replace defaults of the same name whatever their letter case.',
    ['inputs', 'configurations'], 'every entry point, base URL shape, header set, key and transport configuration',
    'Tests use one base URL and at most one header; they never vary header case, URL form or credentials.',
    ['packages/shared/src/utils/request-url.ts', 'packages/shared/src/utils/request-headers.ts', 'packages/shared/src/utils/post-json.ts'],
    [['URL join', 'packages/shared/src/utils/request-url.ts'], ['header merge', 'packages/shared/src/utils/request-headers.ts']],
    'expected URL, method and headers are computed from the generated configuration'),
  p('P03', 'Every failed reply surfaces as its documented error and never as success',
    'A reply with a non-success status, an absent body, malformed JSON, no choices, an error event or a malformed event inside an event stream, or a connection that fails before or during the body, makes the call (or, once streaming, all of its outputs) fail exactly once with the documented error class. That error carries its documented fields (status, status text, body, headers, response, unparseable text, cause, reason), is recognised by the class\'s own type guard and the base guard, and transport errors arrive unchanged. No such reply is reported as a result, and the failed request is not repeated.',
    ['inputs', 'fault_sequences'], 'every entry point crossed with every faulty reply',
    'Tests exercise one status code on one endpoint; bodies, statuses, break points and event positions are unbounded.',
    ['packages/shared/src/error/index.ts', 'packages/shared/src/utils/response-catch.ts', 'packages/shared/src/utils/response-json.ts', 'packages/shared-stream/src/json.ts'],
    [['status check', 'packages/shared/src/utils/response-catch.ts'], ['typed errors', 'packages/shared/src/error/index.ts']],
    'expected class and fields are derived from the injected fault'),
  p('P04', 'Caller data is never modified and concurrent calls never interfere',
    'No call modifies the options, messages, inputs, tools, schemas, headers or provider objects it is given: a caller may freeze them or use one options object for any number of overlapping calls. Each of those overlapping calls produces the same requests and the same result as it would alone.',
    ['inputs', 'schedules', 'histories'], 'every entry point with deeply frozen arguments; any overlap of several calls sharing one options object',
    'Tests build fresh arguments per call and run one call at a time.',
    [pk('generate-text'), pk('stream-text'), 'packages-ext/responses/src/utils/responses.ts', 'packages-ext/telemetry/src/wrapped/stream-text.ts', `${SC}/prepare-step.ts`],
    [['input copied at the start of a call', pk('stream-text')], ['cloned step state', `${SC}/prepare-step.ts`]],
    'calls with deep-frozen arguments and interleaved calls are compared with isolated runs'),
  p('P05', 'A non-streaming generation follows the tool loop exactly',
    'Starting from the caller\'s messages, every step sends the whole transcript so far; an assistant reply is appended, its tool calls are executed once each with the parsed input, call id and transcript, and their results are appended in call order before the next request. The loop ends exactly when a step has no tool calls or the stop condition holds, in which case the calls of that last step are not executed. The returned messages, steps, text, reasoning, tool calls, tool results, finish reason and step callbacks describe precisely that history. Each step waits for its preparation and its step callback; one that fails, at any step, ends the call with exactly its error, and no further request is sent.',
    ['histories', 'programs', 'inputs'], 'every scripted model, tool set, hook set, step preparation and stop condition',
    'Tests run one or two fixed scripts; the loop must be right for every history of replies and tools.',
    [pk('generate-text'), `${SC}/execute-tool.ts`], [['step loop', pk('generate-text')], ['tool execution', `${SC}/execute-tool.ts`]],
    'reference model of the loop'),
  p('P06', 'A streaming generation follows the same tool loop, whatever the chunking',
    'A streamed generation sends the same sequence of requests, executes the same tool calls and ends with the same transcript, steps and callbacks as the reply content dictates, however that content is cut into chunks: tool-call arguments spread over many chunks, interleaved between calls, announced with or without arguments, batched, numbered with gaps, or mixed with text and reasoning. Each tool call is executed exactly once with the concatenation of its argument pieces. The result promises for messages, steps and usage settle with that history.',
    ['histories', 'programs', 'inputs'], 'every scripted model, chunking plan, tool set, hook set, step preparation and stop condition',
    'Tests replay one recorded stream; chunk layouts differ between providers and cannot be enumerated.',
    [pk('stream-text'), `${SC}/execute-tool.ts`], [['delta accumulation and step loop', pk('stream-text')]],
    'the same reference model, driven by generated chunk plans'),
  p('P07', 'Stream events are well formed and all stream outputs agree',
    'Within each step, text, reasoning and tool-call events are bracketed by exactly one start and one done, deltas concatenate to the content their done event reports, a tool call is announced before its argument deltas and completed before its result, and each step ends with one step event carrying that step. The event callback sees exactly the events of the event stream. The text, reasoning and raw chunk streams carry exactly the text, reasoning and chunks that the same reply produced.',
    ['inputs', 'histories'], 'every scripted model and chunk plan',
    'Tests look at the text stream of one reply; the ordering rules must hold for every chunk sequence.',
    [pk('stream-text'), 'packages/shared-chat/src/types/event.ts'], [['event emission', pk('stream-text')]],
    'event grammar checked as invariants over the observed history'),
  p('P08', 'Results do not depend on how bytes are framed on the wire',
    'For every streaming endpoint, the outcome depends only on the sequence of events: splitting the bytes anywhere (also inside characters and line breaks), CRLF or LF, an optional space after the field name, comments, event and id fields, and a present or missing end marker do not change any output. Multi-byte text arrives intact.',
    ['inputs', 'schedules'], 'every event sequence, every byte split and every framing style',
    'Tests deliver one whole body; the byte splits of a network are unbounded.',
    ['packages/shared-stream/src/json.ts', 'packages-ext/responses/src/utils/responses.ts', pk('stream-speech'), pk('stream-transcription')],
    [['SSE parsing', 'packages/shared-stream/src/json.ts']],
    'metamorphic: same events, different framing, equal outputs'),
  p('P09', 'Streaming and non-streaming generation agree',
    'For the same model replies, tools, hooks, stop condition and options, a streamed and a non-streamed generation send the same conversation in every request, execute the same tool calls, and report the same steps, texts, reasoning, usage and final transcript. The same holds with structured output: the final object assembled from a streamed reply equals the one parsed from the whole reply.',
    ['histories', 'inputs'], 'every scripted conversation run both ways',
    'No test compares the two modes.',
    [pk('stream-text'), pk('generate-text'), 'packages/stream-object/src/utils/stream-object.ts', pk('generate-object')], [['shared tool execution', `${SC}/execute-tool.ts`]],
    'differential'),
  p('P10', 'Every output of a streaming call settles, with the same error on failure',
    'Whatever fails while a generation streams - the transport, the reply, a malformed chunk, a step-preparation callback, a stop condition, at any step - every stream and every promise that the call returned settles: with the complete result, or all with that one error. Nothing hangs, no output reports success after a failure, and outputs the caller never looked at raise no unhandled rejection. Content that arrived before the failure is still delivered to readers that keep up.',
    ['fault_sequences', 'schedules', 'histories'], 'every fault position and kind, with every subset of outputs consumed',
    'Tests cover successful streams; fault position and consumption pattern multiply.',
    [pk('stream-text'), 'packages/shared-stream/src/controller.ts', pk('stream-transcription'), pk('stream-speech')], [['error fan-out', pk('stream-text')], ['delayed promise', 'packages/shared-stream/src/controller.ts']],
    'fault injected at a generated point; every output observed under a virtual clock'),
  p('P11', 'Aborting stops the work and fails the call with the abort reason',
    'When the caller aborts at any moment - before the call, while a request is pending, while a body streams, while tools run, between steps - no further request is sent and no further tool is started, and the reason reaches the pending transport. Calls that were waiting on the network fail with exactly the abort reason, and every stream and promise of the call settles. Tools receive the signal.',
    ['schedules', 'fault_sequences'], 'every entry point and every abort instant',
    'One test aborts at one fixed moment.',
    [pk('stream-text'), pk('generate-text'), 'packages/shared/src/utils/post-json.ts', `${SC}/execute-tool.ts`], [['signal passed to fetch', 'packages/shared/src/utils/post-json.ts'], ['signal passed to tools', `${SC}/execute-tool.ts`]],
    'abort at a generated instant of virtual time; null reasons excluded'),
  p('P12', 'A tool call always yields exactly one outcome',
    'Executing one tool call always produces exactly one result message bearing its call id: the tool\'s output, or an error text naming the tool when the tool is unknown, its arguments are not JSON, validation fails, or the tool or a hook throws. A hook run before the call may replace the call or supply the result (then the tool does not run), a hook after it may replace the result and runs only if the tool was executed, and blank arguments count as an empty object. String and content-part outputs are passed as they are, any other output as JSON, and validators\' transformed values are what the tool receives. Only a hook that changes the call id, or a reply whose call lacks a name or (in a whole reply) arguments, makes the whole generation fail, with a typed error.',
    ['inputs', 'programs'], 'every tool behaviour, argument text, validator and hook combination',
    'Tests cover a handful of combinations.',
    [`${SC}/execute-tool.ts`, `${SC}/internal/to-tool-message-content.ts`], [['tool execution', `${SC}/execute-tool.ts`]],
    'reference model of one call'),
  p('P13', 'Parallel tool calls are order-independent',
    'The tool calls of one step all start without waiting for each other, and the results appear in the order in which the model made the calls, whatever order the tools finish in. The requests, transcript and steps are the same for every completion order, one tool\'s failure does not affect another\'s outcome, and every tool sees the transcript as it was before any result.',
    ['schedules'], 'every completion order of the tool calls of a step',
    'Tests use tools that finish immediately.',
    [pk('generate-text'), pk('stream-text'), 'packages-ext/responses/src/utils/responses.ts'], [['concurrent execution, ordered results', pk('generate-text')]],
    'virtual-time schedules; metamorphic against the all-immediate schedule'),
  p('P14', 'Step preparation sees the truth and affects only its own step',
    'Before every request the step-preparation callback runs once with the step number, the conversation so far, the model and the previous steps. What it returns is used for that request - a replaced conversation, model or tool choice applies to that request only and never to later steps or to the transcript - and omitted fields keep the caller\'s settings. Whatever it does to its arguments has no effect on the run.',
    ['programs', 'histories'], 'every preparation callback behaviour across every history',
    'Tests check one returned override.',
    [`${SC}/prepare-step.ts`, pk('generate-text'), pk('stream-text'), 'packages-ext/responses/src/utils/responses.ts'], [['prepared state', `${SC}/prepare-step.ts`]],
    'preparation callbacks that override and that mutate their arguments, compared with the model'),
  p('P15', 'Stop conditions form a Boolean algebra and are asked once per step',
    'Step-count, tool-call, and, or and not conditions compose as Boolean functions of the run (an empty conjunction holds, an empty disjunction does not). The condition is evaluated exactly once after each reply, with the conversation including that reply, the current step and all steps so far including the current one. Without a condition a run makes a single request.',
    ['inputs', 'histories'], 'every condition expression over every history',
    'Tests try single conditions.',
    [`${SC}/stop-when.ts`, pk('generate-text'), pk('stream-text')], [['condition combinators', `${SC}/stop-when.ts`]],
    'truth-table oracle, exact evaluation log'),
  p('P16', 'Usage is attributed to its step and summed exactly once',
    'Each step reports the usage of its own reply and no other; the total usage is the field-wise sum over all steps that reported usage, counted once per step wherever in the stream the usage arrives or however often it is repeated. The usage of the call is that of its final step, or none if that step reported none. A run in which no step reported usage reports none. Multi-step runs never lose, double or carry over usage.',
    ['histories', 'inputs'], 'every placement of usage over every history, in all generation entry points',
    'Tests look at one single-step usage.',
    [`${SC}/usage.ts`, pk('stream-text'), pk('generate-text'), 'packages-ext/responses/src/utils/normalize-usage.ts'], [['usage summation', `${SC}/usage.ts`]],
    'sum recomputed from the script'),
  p('P17', 'Structured output returns what the model said, validated by the schema',
    'For an object schema the result is exactly the schema\'s validated output for the JSON in the reply, and for an array the list of elements; a reply that does not satisfy the schema fails with the validation issues and is never returned. The request carries the schema, made strict unless strictness is switched off, under the given name and description. The remaining result fields (finish reason, usage, messages, reasoning) are those of the underlying generation.',
    ['inputs'], 'every schema and reply, object and array output',
    'Tests check one recorded object.',
    [pk('generate-object'), 'packages/generate-object/src/_wrap.ts', 'packages-top/xsschema/src/validate.ts'], [['parse and validate', pk('generate-object')]],
    'schemas and matching or violating replies generated together'),
  p('P18', 'Streamed structured output converges and never invents data',
    'In array mode every element of the streamed JSON is delivered exactly once, complete, in order, and nothing else is, however the text is cut. In object mode each partial object is a prefix of the final object - its keys appear in the final object and its completed values never change - and the last one equals the whole object. An error in the underlying stream reaches these streams. A generation that produces no text at all fails these streams with the empty_body error instead of ending them as if an object had arrived.',
    ['inputs', 'schedules'], 'every JSON value and every cut',
    'Tests consume one recorded stream.',
    ['packages/stream-object/src/utils/to-element-stream.ts', 'packages/stream-object/src/utils/to-partial-object-stream.ts', 'packages/stream-object/src/utils/stream-object.ts'], [['incremental parsing', 'packages/stream-object/src/utils/to-element-stream.ts']],
    'values generated, rendered to JSON, cut at every granularity'),
  p('P19', 'Schemas become equivalent strict JSON schemas and validation is faithful',
    'Converting a schema of any supported library yields a JSON schema that accepts exactly the inputs the schema itself accepts; a JSON schema passed as is stays as it is, and an unsupported library is reported by name. Making a schema strict closes every object at every depth, including inside arrays, unions and definitions, keeps all other keywords and required lists, and never alters its input. Validation returns exactly the validator\'s value (including transformed and asynchronous ones) and otherwise fails with the issues in the message.',
    ['inputs'], 'every generated schema and value for the supported libraries',
    'Tests convert one schema per library.',
    ['packages-top/xsschema/src/json-schema.ts', 'packages-top/xsschema/src/validate.ts', 'packages-top/xsschema/src/to-json-schema/index.ts'], [['strict schema', 'packages-top/xsschema/src/json-schema.ts'], ['validate', 'packages-top/xsschema/src/validate.ts']],
    'direct oracle per library plus recursive strictness model'),
  p('P20', 'Every way of declaring a tool declares the same tool',
    'A tool declared from a schema, from a raw JSON schema or in definition form sends the same function declaration (name, description, strictness, parameters), runs the given implementation with the same input and context, and validates input through the schema when one is given. Tool declarations work identically in every generation entry point.',
    ['inputs', 'programs'], 'every name, description, strictness flag, schema and implementation',
    'Tests build one tool per builder.',
    ['packages/tool/src/utils/tool.ts', 'packages/tool/src/utils/raw-tool.ts', 'packages/tool/src/utils/define-tool.ts', 'packages-ext/responses/src/utils/normalize-tool.ts'], [['builders', 'packages/tool/src/utils/tool.ts']],
    'differential between builders, observed through the wire and the execution'),
  p('P21', 'Embeddings and model listings return exactly what the server sent',
    'A single embedding call returns that input\'s vector unchanged, a batch call returns one vector per input in input order, and both return the caller\'s input and the reported usage. Model listing returns all listed models in order, and model retrieval asks for exactly the given model and returns it unchanged.',
    ['inputs'], 'every input, vector, usage and model list',
    'Tests use one fixed reply.',
    ['packages/embed/src/utils/embed.ts', 'packages/embed/src/utils/embed-many.ts', 'packages/model/src/utils/list-models.ts', 'packages/model/src/utils/retrieve-model.ts'], [['reply mapping', 'packages/embed/src/utils/embed-many.ts']],
    'round trip of generated replies'),
  p('P22', 'Image generation returns every image faithfully',
    'Every image of the reply is returned exactly once and in order, with its bytes unchanged, as a data URL whose media type matches the image\'s real format (PNG, JPEG, GIF, WebP, AVIF) whatever its content. Images that the server returns by address are fetched through the caller\'s transport and returned the same way.',
    ['inputs'], 'every mix of image formats, byte contents and reply forms',
    'Tests use one PNG.',
    [pk('generate-image')], [['format detection', pk('generate-image')]],
    'generated image bytes per format'),
  p('P23', 'Speech comes back byte for byte, streamed or not',
    'Generated speech is exactly the bytes of the reply. Streamed speech yields exactly the decoded bytes of the audio events in order, however the events are cut on the wire, and the usage of the closing event or none. A stream that fails or is cancelled settles every output, usage included.',
    ['inputs', 'fault_sequences', 'schedules'], 'every audio content, event cut, fault and cancellation point',
    'Tests check one reply size.',
    [pk('generate-speech'), pk('stream-speech')], [['event mapping', pk('stream-speech')]],
    'round trip through generated events'),
  p('P24', 'Transcriptions are faithful, streamed or not',
    'A transcription returns the text of the reply and, in verbose form, its language, duration, words and segments unchanged. A streamed transcription\'s text stream concatenates to the deltas of the reply, its full stream carries every delta event in order, and its final text is their concatenation. Every output settles when the stream fails.',
    ['inputs', 'fault_sequences'], 'every reply, form of response, delta sequence and fault',
    'Tests check one recording.',
    [pk('generate-transcription'), pk('stream-transcription')], [['reply mapping', pk('generate-transcription')]],
    'round trip of generated replies'),
  p('P25', 'Reasoning extraction partitions the text and ignores chunking',
    'Splitting text into reasoning and answer puts every character outside the tags into exactly one of the two, in order, with the tags removed and separate sections joined by the separator. The streamed splitter yields the same two texts for every way of cutting the input, also inside a tag, and both its streams settle when the source fails. Tag names are taken literally.',
    ['inputs', 'schedules'], 'every text, tag name, separator, starting mode and cut',
    'Tests cut at a few fixed places.',
    ['packages/utils-reasoning/src/extract-reasoning.ts', 'packages/utils-reasoning/src/extract-reasoning-stream.ts', 'packages/utils-reasoning/src/_get-partial-match-index.ts'], [['streaming splitter', 'packages/utils-reasoning/src/extract-reasoning-stream.ts']],
    'reference splitter over whole text; metamorphic over cuts'),
  p('P26', 'Smoothing and simulating streams preserve content, order and pacing',
    'A smoothed stream carries exactly the text of its source in order - nothing lost at the end, added or repeated - re-cut at the requested granularity (words, lines, or the caller\'s pattern) with the requested delay between pieces, and it always terminates. A simulated stream yields exactly the given chunks in order with the initial delay before the first and the chunk delay before every later one.',
    ['inputs', 'schedules'], 'every text, cut, granularity pattern and delay',
    'Tests check one sentence.',
    ['packages/utils-stream/src/smooth-stream.ts', 'packages/utils-stream/src/simulate-readable-stream.ts'], [['re-chunking', 'packages/utils-stream/src/smooth-stream.ts']],
    'concatenation, piece shape and virtual-clock timing'),
  p('P27', 'The retrying transport retries exactly as configured and no more',
    'A request is attempted once, then repeated after the configured delay while its reply has a retryable status and attempts remain; the number of requests never exceeds the configured retries plus one, and options left out or undefined take their defaults. Each attempt carries the same URL, method, headers, body and signal. The reply of the last attempt is returned; replies that are not retryable are returned and network errors thrown at once, and calls made through one transport do not affect each other.',
    ['fault_sequences', 'configurations', 'inputs'], 'every sequence of faults, configuration and request form',
    'Tests try a couple of failure counts.',
    ['packages-top/xsfetch/src/index.ts'], [['retry loop', 'packages-top/xsfetch/src/index.ts']],
    'scripted fault sequences under a virtual clock against a counting model'),
  p('P28', 'The responses client follows its tool loop exactly',
    'With the responses protocol, each step sends the input so far; output items of the reply are appended to the input, every function call is executed once and its output appended with its call id in call order, and the run continues until a reply has no function calls or the stop condition holds. String input becomes one user message and every kind of output item survives the round trip. Steps, input, usage and final results describe that history.',
    ['histories', 'programs', 'inputs'], 'every scripted responses server, tool set, hook set and stop condition',
    'Tests replay one reply.',
    ['packages-ext/responses/src/utils/responses.ts', 'packages-ext/responses/src/utils/normalize-output.ts', 'packages-ext/responses/src/utils/normalize-input.ts'], [['step loop', 'packages-ext/responses/src/utils/responses.ts']],
    'reference model of the responses loop'),
  p('P29', 'Responses streams are well formed and always settle',
    'The responses client\'s event, text and reasoning streams follow the event grammar of chat generation (text and reasoning are opened and closed once per text part the model sends, never nested), agree with each other and with the reply, and its promises settle with the final history. Failed and incomplete replies are reported as such in the finish reason, and faults or aborts at any point settle every output with the one error.',
    ['fault_sequences', 'schedules', 'inputs'], 'every event sequence, fault and abort point, and consumption pattern',
    'Tests replay one successful stream.',
    ['packages-ext/responses/src/utils/responses.ts'], [['event mapping and error fan-out', 'packages-ext/responses/src/utils/responses.ts']],
    'event grammar, fault injection under a virtual clock'),
  p('P30', 'Telemetry never changes what a call does',
    'With telemetry switched on, text generation, streaming and embeddings send the same requests, execute the same tools with the same hooks and validation, and return the same results, events and errors as without it. Telemetry settings never leave the process.',
    ['histories', 'fault_sequences', 'inputs'], 'every scenario and fault run with and without telemetry',
    'Tests run telemetry on a single reply and compare nothing.',
    ['packages-ext/telemetry/src/wrapped/generate-text.ts', 'packages-ext/telemetry/src/wrapped/stream-text.ts', 'packages-ext/telemetry/src/wrapped/embed.ts', 'packages-ext/telemetry/src/utils/wrap-tool.ts'], [['instrumented copies of the loops', 'packages-ext/telemetry/src/wrapped/stream-text.ts']],
    'differential'),
  p('P31', 'Telemetry spans are complete, correct and always ended',
    'Each instrumented call emits one chat span per request and one span per executed tool inside the span of the step that called it, each ended exactly once before the call settles whatever happens, with the documented operation, model, request settings, caller attributes, token counts, finish reasons and conversation content of that very step. A failing request or tool marks its span as failed and records the error. Nothing is recorded for settings the caller did not give, nothing is shortened, and attributes the caller supplies stand in place of those recorded about the provider and the server.',
    ['histories', 'fault_sequences'], 'every scenario and fault',
    'Tests look at one span of one reply.',
    ['packages-ext/telemetry/src/utils/record-span.ts', 'packages-ext/telemetry/src/utils/record-span-options.ts', 'packages-ext/telemetry/src/wrapped/generate-text.ts'], [['span recording', 'packages-ext/telemetry/src/utils/record-span.ts']],
    'in-memory exporter compared with the script'),
  p('P32', 'Provider presets produce their documented, independent settings',
    'Every provider preset and factory yields, for each capability it offers, call options with the right base URL, the caller\'s key and exactly the requested model, usable with the matching client call. Options obtained from one provider are independent: changing or mixing them never affects another call, and merging providers keeps each capability.',
    ['configurations', 'histories'], 'every preset and factory, capability, key, base URL and sequence of uses',
    'Tests instantiate a few presets.',
    ['packages-ext/providers/src/utils/create.ts', 'packages-ext/providers/src/utils/merge.ts', 'packages-ext/providers/src/generated/create.ts', 'packages-ext/providers/src/generated/index.ts'], [['capability factories', 'packages-ext/providers/src/utils/create.ts'], ['merge', 'packages-ext/providers/src/utils/merge.ts']],
    'reference table of presets; histories of uses of shared provider objects'),
  p('P33', 'Providers with special needs adapt requests as documented and hide no failure',
    'Providers that adapt the protocol (routing and transform options, deployment-style addresses and keys, special speech and model listings, required headers) send requests in their documented form for every option given, keep what the caller supplied, and return replies in the standard form. A failed reply from such a provider is reported as a failure like any other.',
    ['configurations', 'inputs', 'fault_sequences'], 'every special provider, its options, and good or failing replies',
    'No test covers these adaptations.',
    ['packages-ext/providers/src/manual/providers/openrouter.ts', 'packages-ext/providers/src/special/providers/azure.ts', 'packages-ext/providers/src/special/providers/player2.ts', 'packages-ext/providers/src/manual/providers/together-ai.ts', 'packages-ext/providers/src/manual/providers/featherless.ts', 'packages-ext/providers/src/manual/providers/anthropic.ts'], [['provider-specific transports', 'packages-ext/providers/src/special/providers/azure.ts']],
    'expected wire form derived from the options'),
  p('P34', 'Chat message builders produce the message they name',
    'Each message builder yields exactly a message of its role with the given content: text stays text, part builders yield the part they name, part lists keep their order and fields, one or several tool calls become the tool calls of an assistant message, a tool result names its call, and nothing is added. Messages built this way are sent unchanged by every generation call.',
    ['inputs'], 'every content and part list',
    'Tests build one message each.',
    ['packages/utils-chat/src/message.ts'], [['builders', 'packages/utils-chat/src/message.ts']],
    'direct oracle plus wire observation'),
  p('P35', 'Outputs of one streaming call are independent of each other',
    'Each stream and promise of a streaming call - text, object, responses, telemetry and transcription streaming, and the streams a splitter such as extractReasoningStream makes - delivers its complete content whatever the caller does with the others: read late, slowly, concurrently, cancelled early or never touched. Cancelling one output does not shorten, fail or hang the rest.',
    ['schedules', 'histories'], 'every consumption pattern over every streaming call',
    'Tests read one output to its end.',
    [pk('stream-text'), 'packages/stream-object/src/utils/stream-object.ts', 'packages-ext/responses/src/utils/responses.ts', 'packages-ext/telemetry/src/wrapped/stream-text.ts'], [['independent controllers', pk('stream-text')]],
    'generated consumption patterns compared with full consumption'),
  p('P36', 'Streams deliver content as it arrives',
    'Streaming is live: every piece of text, reasoning, tool-call arguments, audio or raw chunk reaches its stream and the event callback when the server event that carries it arrives, not later - also in later steps of a multi-step run and through the instrumented client. A structured list delivers an element once the next one has begun, a partial object shows what has arrived so far save the token still arriving, the reasoning splitter holds back no more than a possible tag, smoothing no more than an incomplete unit, and a call ends when its last reply ends.',
    ['schedules', 'inputs'], 'every delivery schedule over every streaming call and stream transformer',
    'Tests deliver whole replies at once and look at the collected result.',
    [pk('stream-text'), 'packages-ext/responses/src/utils/responses.ts', pk('stream-transcription'), pk('stream-speech'), 'packages/stream-object/src/utils/to-element-stream.ts', 'packages/utils-reasoning/src/extract-reasoning-stream.ts', 'packages/utils-stream/src/smooth-stream.ts'], [['enqueue on arrival', pk('stream-text')], ['buffering of possible tags', 'packages/utils-reasoning/src/extract-reasoning-stream.ts']],
    'delivery times on a virtual clock compared with the times the server sent each event'),
  p('P37', 'No reply is left open',
    'When a call has ended - with success, an error from the server, a callback that throws, or because another step follows - every reply body it received has been read to its end or cancelled, so that connections are not held and the server does not go on generating for nobody. The retrying transport releases the replies it retries and hands out the last one untouched; cancelling streamed speech, a smoothed text, an element or partial-object stream cancels the source it reads from.',
    ['faults', 'histories'], 'every way a call can end',
    'Tests use replies that are complete at once, so nothing stays open.',
    [pk('stream-text'), 'packages-ext/responses/src/utils/responses.ts', 'packages-top/xsfetch/src/index.ts', pk('stream-speech'), 'packages-ext/telemetry/src/wrapped/stream-text.ts'], [['release of retried replies', 'packages-top/xsfetch/src/index.ts'], ['end of a step', 'packages-ext/responses/src/utils/responses.ts']],
    'generated ways to end a call, observed from the server side of every body'),
  p('P38', 'Building blocks keep their contracts',
    'The helpers exported for custom clients hold for every input: clean drops exactly the undefined top-level entries; the case helpers rename each top-level key with one underscore per capital letter and touch no value; request address, headers (caller\'s names win, compared without letter case) and body are built as in the clients; a good reply is handed on unread, a bad one becomes an APICallError with status, text, headers and body; JSON replies parse or give a JSONParseError with text and cause; a trampoline runs chains of any length, one link at a time; server-sent messages skip blanks and the end marker, use a custom marker, parser and error test, and fail with the right error; controlled streams deliver in order, end once, and ignore cancelled ones; every error class carries its code, name, cause and fields, and its guard accepts exactly the class and what derives from it.',
    ['inputs'], 'every input of the exported helpers',
    'Tests show one example per helper.',
    [pk('shared'), pk('shared-stream'), 'packages/shared/src/error/index.ts', 'packages/shared/src/utils/request-headers.ts', 'packages/shared-stream/src/json.ts', 'packages/shared-stream/src/controller.ts'], [['guards', 'packages/shared/src/error/index.ts'], ['message parsing', 'packages/shared-stream/src/json.ts']],
    'generated inputs against independent models of each helper'),
]
