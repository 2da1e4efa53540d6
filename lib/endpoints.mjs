// Every client entry point of the SDK, described by its wire contract:
// where it posts, what body its options mean, what a minimal good reply is, and how to await its outcome.
import { collect, fc, jsonReply, jsonVal, messagesArb, outcome, sized, sseReply, sseText, text, text1 } from './kit.mjs'

export const snake = (s) => {
  let o = ''
  for (const c of s) o += c >= 'A' && c <= 'Z' ? `_${c.toLowerCase()}` : c
  return o
}
export const snakeTop = o => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== undefined).map(([k, v]) => [snake(k), v]))

// options any endpoint may carry beyond its named ones ("unknown" options are passed through)
export const extraOptions = () => fc.dictionary(
  fc.constantFrom('maxTokens', 'topLogprobs', 'logitBias', 'user', 'someNewOption', 'already_snake', 'metadata', 'serviceTier', 'x', 'promptCacheKey', 'webSearchOptions', 'HTTPThing', 'a1B2', 'extraBody', 'modalities', 'topA'),
  fc.oneof(jsonVal(2), fc.constant(undefined), fc.constantFrom(null, false, 0, '', [], {}), fc.constant({ camelCaseKey: { innerCamel: [{ deepCamel: 1 }] }, snake_key: null })),
  { maxKeys: 5, noNullPrototype: true },
)

const opt = (rec) => {
  // each named option is present, absent, or explicitly undefined
  const r = {}
  for (const [k, a] of Object.entries(rec)) r[k] = fc.oneof({ weight: 3, arbitrary: a.map(v => ({ v })) }, { weight: 2, arbitrary: fc.constant(null) }, { weight: 1, arbitrary: fc.constant({ v: undefined }) })
  return fc.record(r).map(o => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== null).map(([k, { v }]) => [k, v])))
}

const chatNamed = () => opt({
  temperature: fc.constantFrom(0, 0.5, 2),
  topP: fc.constantFrom(0, 1),
  topK: fc.nat({ max: 50 }),
  seed: fc.constantFrom(0, 42),
  stop: fc.constantFrom('x', ['a', 'b'], '', []),
  frequencyPenalty: fc.constantFrom(0, -1.5),
  presencePenalty: fc.constantFrom(0, 1),
  parallelToolCalls: fc.boolean(),
  reasoningEffort: fc.constantFrom('low', 'none'),
})
const plainTool = fc.record({
  name: fc.constantFrom('weather', 'search', 'calc'), description: fc.option(text(2), { nil: undefined }), strict: fc.option(fc.boolean(), { nil: undefined }),
  parameters: fc.constantFrom({ type: 'object', properties: {} }, { type: 'object', properties: { cityName: { type: 'string' } }, required: ['cityName'], additionalProperties: false }),
})
// now and then a great many of them
const manyTools = fc.tuple(plainTool, fc.integer({ min: 17, max: 140 })).map(([t, n]) => Array.from({ length: n }, (_, i) => ({ ...t, name: `${t.name}_${i}` })))
export const toolsArb = () => fc.option(sized(fc.uniqueArray(plainTool, { selector: t => t.name, maxLength: 3 }), manyTools), { nil: undefined })
export const buildTools = (ts, withValidate = false) => ts?.map(f => ({
  type: 'function', function: { ...f }, execute: () => 'ok', ...(withValidate ? { validate: value => ({ value }) } : {}),
}))
const wireTools = ts => ts?.map(f => ({ type: 'function', function: Object.fromEntries(Object.entries(f).filter(([, v]) => v !== undefined)) }))

const chatSpec = () => fc.record({
  model: text1(2), messages: fc.oneof({ weight: 60, arbitrary: messagesArb() }, { weight: 1, arbitrary: messagesArb(160) }), named: chatNamed(), tools: toolsArb(), validate: fc.boolean(),
  toolChoice: fc.option(fc.constantFrom('auto', 'none', { type: 'function', function: { name: 'weather' } }), { nil: undefined }),
  extra: extraOptions(),
})
const chatOptions = s => ({ ...s.extra, ...s.named, model: s.model, messages: structuredClone(s.messages), ...(s.tools ? { tools: buildTools(s.tools, s.validate) } : {}), ...(s.toolChoice ? { toolChoice: s.toolChoice } : {}), ...localCallbacks(s) })
const chatBody = (s, over) => ({ ...snakeTop({ ...s.extra, ...s.named, model: s.model, messages: s.messages, toolChoice: s.toolChoice }), ...(s.tools ? { tools: wireTools(s.tools) } : {}), ...over })
const localCallbacks = () => ({ onStepFinish: () => {}, preToolCall: () => {}, postToolCall: () => {}, prepareStep: () => ({}), stopWhen: () => true })

export const finalJSON = (content = 'hi') => ({ id: 'r', object: 'chat.completion', created: 1, model: 'm', system_fingerprint: 'fp', choices: [{ index: 0, finish_reason: 'stop', message: { role: 'assistant', content } }], usage: { prompt_tokens: 1, completion_tokens: 2, total_tokens: 3 } })
export const finalChunks = (content = 'hi') => [
  { id: 'r', object: 'chat.completion.chunk', choices: [{ index: 0, delta: { role: 'assistant', content } }] },
  { id: 'r', object: 'chat.completion.chunk', choices: [{ index: 0, delta: {}, finish_reason: 'stop' }], usage: { prompt_tokens: 1, completion_tokens: 2, total_tokens: 3 } },
]
const speechEvents = [{ type: 'speech.audio.delta', audio: 'AAEC' }, { type: 'speech.audio.done', usage: { input_tokens: 1, output_tokens: 2, total_tokens: 3 } }]
const transcriptEvents = [{ type: 'transcript.text.delta', delta: 'hi' }, { type: 'transcript.text.done', text: 'hi' }]
export const responseEvents = (t = 'hi') => {
  const item = { id: 'm1', type: 'message', role: 'assistant', status: 'completed', content: [{ type: 'output_text', text: t, annotations: [] }] }
  return [
    { type: 'response.created', response: { id: 'x', output: [] } },
    { type: 'response.output_text.delta', delta: t },
    { type: 'response.output_item.done', item },
    { type: 'response.completed', response: { id: 'x', status: 'completed', output: [item], usage: { input_tokens: 1, output_tokens: 2, total_tokens: 3 } } },
  ]
}

// drain everything a streaming call hands out, then its promises; rejects with the call's error
export const drainStreamText = async (r) => {
  const streams = [r.eventStream, r.fullStream, r.reasoningTextStream, r.textStream, r.elementStream, r.partialObjectStream].filter(Boolean).map(s => collect(s))
  const proms = [r.messages, r.input, r.steps, r.usage, r.totalUsage].filter(Boolean).map(outcome)
  const s = await Promise.all(streams)
  const p = await Promise.all(proms)
  const failed = [...p.filter(x => !x.ok), ...s.filter(x => x.end === 'errored')]
  if (failed.length > 0 && failed.length < p.length + s.length) throw new Error('some outputs report success and others a failure')
  if (failed.length > 0) throw failed[0].error
  return { streams: s, promises: p.map(x => x.value) }
}

const fileArb = () => fc.record({ bytes: fc.uint8Array({ maxLength: 32 }), type: fc.constantFrom('audio/mpeg', 'audio/wav', ''), asFile: fc.boolean() })
const mkBlob = f => f.asFile ? new File([f.bytes], 'orig.mp3', { type: f.type }) : new Blob([f.bytes], { type: f.type })

const VENDOR = {} // minimal Standard JSON Schema, so object endpoints need no vendor
VENDOR.schema = {
  '~standard': {
    version: 1, vendor: 'test',
    validate: value => ({ value }),
    jsonSchema: { input: () => ({ type: 'object', properties: { a: { type: 'string' } }, required: ['a'] }), output: () => ({}) },
  },
}
export const objectSchema = VENDOR.schema
const strictOf = { type: 'object', properties: { a: { type: 'string' } }, required: ['a'], additionalProperties: false }
const rf = s => ({ type: 'json_schema', json_schema: { ...(s.desc !== undefined ? { description: s.desc } : {}), name: s.name ?? 'json_schema', schema: s.strict === false ? { type: 'object', properties: { a: { type: 'string' } }, required: ['a'] } : strictOf, strict: s.strict ?? true } })
const objSpec = () => fc.tuple(chatSpec(), fc.record({ name: fc.option(fc.constantFrom('thing', 'n2'), { nil: undefined }), desc: fc.option(text(2), { nil: undefined }), strict: fc.constantFrom(undefined, true, false) })).map(([c, o]) => ({ ...c, ...o }))
const objOptions = s => ({ ...chatOptions(s), schema: objectSchema, ...(s.name ? { schemaName: s.name } : {}), ...(s.desc !== undefined ? { schemaDescription: s.desc } : {}), ...(s.strict !== undefined ? { strict: s.strict } : {}) })

export const makeEndpoints = (lib) => {
  const X = lib.xsai
  const T = lib.telemetry
  const chatJSON = (name, fn, more = {}) => ({
    name, kind: 'json', path: 'chat/completions', method: 'POST', spec: chatSpec,
    options: chatOptions, body: s => chatBody(s, { stream: false }), reply: () => jsonReply(finalJSON()),
    run: o => fn(o), ...more,
  })
  const chatSSE = (name, fn, more = {}) => ({
    name, kind: 'sse', path: 'chat/completions', method: 'POST',
    spec: () => fc.tuple(chatSpec(), fc.constantFrom(undefined, {}, { includeUsage: true }, { includeUsage: false, camelThing: 1 })).map(([s, so]) => ({ ...s, so })),
    options: s => ({ ...chatOptions(s), onEvent: () => {}, onFinish: () => {}, ...(s.so ? { streamOptions: s.so } : {}) }),
    body: s => chatBody(s, { stream: true, ...(s.so ? { stream_options: snakeTop(s.so) } : {}) }),
    reply: () => sseReply(sseText(finalChunks())), start: fn, run: async o => drainStreamText(await fn(o)), ...more,
  })
  const embedSpec = many => () => fc.record({ model: text1(2), input: many ? fc.array(text(3), { minLength: 1, maxLength: 4 }) : text(4), dimensions: fc.option(fc.nat({ max: 9 }), { nil: undefined }), extra: extraOptions() })
  const embedBase = (name, fn, many) => ({
    name, kind: 'json', path: 'embeddings', method: 'POST', spec: embedSpec(many),
    options: s => ({ ...s.extra, model: s.model, input: structuredClone(s.input), dimensions: s.dimensions }),
    body: s => snakeTop({ ...s.extra, model: s.model, input: s.input, dimensions: s.dimensions }),
    reply: s => jsonReply({ object: 'list', model: 'm', data: (many ? s.input : [0]).map((_, index) => ({ index, object: 'embedding', embedding: [index, 0.5] })), usage: { prompt_tokens: 1, total_tokens: 1 } }),
    run: o => fn(o),
  })
  const tele = e => ({ ...e, options: s => ({ ...e.options(s), telemetry: { attributes: { a: 1 } } }) })
  const formSpec = () => fc.record({
    model: text1(2), file: fileArb(), fileName: fc.option(fc.constantFrom('a.mp3', 'ü.wav', ''), { nil: undefined }),
    language: fc.option(fc.constantFrom('en', '', 'zh'), { nil: undefined }), prompt: fc.option(fc.constantFrom('a prompt', '', '漢字', ' padded  ', 'a  b\t', ' '), { nil: undefined }),
    temperature: fc.option(fc.constantFrom('0', '0.4'), { nil: undefined }),
    responseFormat: fc.option(fc.constantFrom('json', 'verbose_json'), { nil: undefined }), gran: fc.option(fc.constantFrom('segment', 'word'), { nil: undefined }),
  })
  const formOptions = s => ({ model: s.model, file: mkBlob(s.file), fileName: s.fileName, language: s.language, prompt: s.prompt, temperature: s.temperature })
  const common = s => [['model', s.model], ...['language', 'prompt', 'temperature'].filter(k => s[k] !== undefined).map(k => [k, s[k]])]
  const list = [
    chatJSON('generateText', X.generateText),
    chatSSE('streamText', X.streamText),
    chatJSON('generateObject', X.generateObject, { spec: objSpec, options: objOptions, body: s => chatBody(s, { stream: false, response_format: rf(s) }), reply: () => jsonReply(finalJSON('{"a":"b"}')) }),
    chatSSE('streamObject', X.streamObject, { spec: () => objSpec(), options: s => ({ ...objOptions(s), onEvent: () => {}, onFinish: () => {} }), body: s => chatBody(s, { stream: true, response_format: rf(s) }), reply: () => sseReply(sseText(finalChunks('{"a":"b"}'))) }),
    embedBase('embed', X.embed, false),
    embedBase('embedMany', X.embedMany, true),
    {
      name: 'generateImage', kind: 'json', path: 'images/generations', method: 'POST',
      spec: () => fc.record({ model: text1(2), prompt: text(3), n: fc.option(fc.integer({ min: 1, max: 4 }), { nil: undefined }), size: fc.option(fc.constant('64x64'), { nil: undefined }), responseFormat: fc.option(fc.constant('b64_json'), { nil: undefined }), extra: extraOptions() }),
      options: s => ({ ...s.extra, model: s.model, prompt: s.prompt, n: s.n, size: s.size, responseFormat: s.responseFormat }),
      body: s => snakeTop({ ...s.extra, model: s.model, prompt: s.prompt, n: s.n, size: s.size, responseFormat: s.responseFormat }),
      reply: () => jsonReply({ created: 1, data: [{ b64_json: 'iVBORw0KGgoAAAA=' }] }), run: o => X.generateImage(o),
    },
    {
      name: 'generateSpeech', kind: 'binary', path: 'audio/speech', method: 'POST',
      spec: () => fc.record({ model: text1(2), input: text(3), voice: fc.constantFrom('alloy', 'echo'), speed: fc.option(fc.constantFrom(0.5, 1), { nil: undefined }), responseFormat: fc.option(fc.constantFrom('mp3', 'wav'), { nil: undefined }), instructions: fc.option(text(2), { nil: undefined }), extra: extraOptions() }),
      options: s => ({ ...s.extra, model: s.model, input: s.input, voice: s.voice, speed: s.speed, responseFormat: s.responseFormat, instructions: s.instructions }),
      body: s => snakeTop({ ...s.extra, model: s.model, input: s.input, voice: s.voice, speed: s.speed, responseFormat: s.responseFormat, instructions: s.instructions }),
      reply: () => ({ status: 200, headers: { 'content-type': 'audio/mpeg' }, body: new Uint8Array([1, 2, 3]) }), run: o => X.generateSpeech(o),
    },
    {
      name: 'streamSpeech', kind: 'sse', path: 'audio/speech', method: 'POST',
      spec: () => fc.record({ model: text1(2), input: text(3), voice: fc.constantFrom('alloy', 'echo'), speed: fc.option(fc.constantFrom(0.5, 1), { nil: undefined }), instructions: fc.option(text(2), { nil: undefined }), extra: extraOptions() }),
      options: s => ({ ...s.extra, model: s.model, input: s.input, voice: s.voice, speed: s.speed, instructions: s.instructions }),
      body: s => snakeTop({ ...s.extra, model: s.model, input: s.input, voice: s.voice, speed: s.speed, instructions: s.instructions, streamFormat: 'sse' }),
      reply: () => sseReply(sseText(speechEvents)), start: o => X.streamSpeech(o),
      run: async (o) => {
        const r = await X.streamSpeech(o)
        const u = outcome(r.usage)
        const s = await collect(r.fullStream)
        if (s.end === 'errored') throw s.error
        const x = await u
        if (!x.ok) throw x.error
        return s
      },
    },
    {
      name: 'generateTranscription', kind: 'json', path: 'audio/transcriptions', method: 'POST', form: true, spec: formSpec,
      options: s => ({ ...formOptions(s), responseFormat: s.responseFormat, timestampGranularities: s.gran }),
      formFields: s => [...common(s), ['response_format', s.responseFormat ?? 'json'], ...(s.responseFormat === 'verbose_json' ? [['timestamp_granularities[]', s.gran ?? 'segment']] : [])],
      reply: () => jsonReply({ text: 'hi' }), run: o => X.generateTranscription(o),
    },
    {
      name: 'streamTranscription', kind: 'sse', path: 'audio/transcriptions', method: 'POST', form: true, spec: formSpec,
      options: formOptions, formFields: s => [...common(s), ['stream', 'true']],
      reply: () => sseReply(sseText(transcriptEvents)), start: o => X.streamTranscription(o),
      run: async (o) => {
        const r = X.streamTranscription(o)
        const t = outcome(r.text)
        const s = await Promise.all([collect(r.textStream), collect(r.fullStream)])
        const x = await t
        if (!x.ok) throw x.error
        for (const y of s) if (y.end === 'errored') throw y.error
        return s
      },
    },
    {
      name: 'listModels', kind: 'json', path: 'models', method: 'GET', spec: () => fc.constant({}), options: () => ({}), reply: () => jsonReply({ object: 'list', data: [{ id: 'a', object: 'model', created: 1, owned_by: 'o' }] }), run: o => X.listModels(o),
    },
    {
      name: 'retrieveModel', kind: 'json', path: s => `models/${s.model}`, method: 'GET', spec: () => fc.record({ model: fc.constantFrom('gpt-4o', 'openai/gpt-4o', 'llama3:8b', 'org/model:free', 'm.1', '~vendor/latest') }), options: s => ({ model: s.model }), reply: () => jsonReply({ id: 'a', object: 'model', created: 1, owned_by: 'o' }), run: o => X.retrieveModel(o),
    },
    {
      name: 'responses', kind: 'sse', path: 'responses', method: 'POST',
      spec: () => fc.record({
        model: text1(2), input: fc.oneof(text(3), fc.array(text(3).map(content => ({ type: 'message', role: 'user', content })), { minLength: 1, maxLength: 3 })),
        named: opt({ instructions: text(2), maxOutputTokens: fc.nat({ max: 9 }), temperature: fc.constantFrom(0, 1), previousResponseId: fc.constantFrom('resp_1', null), parallelToolCalls: fc.boolean() }),
        tools: toolsArb(), toolChoice: fc.option(fc.constantFrom('auto', 'required'), { nil: undefined }), so: fc.constantFrom(undefined, { includeObfuscation: false }), extra: extraOptions(),
      }),
      options: s => ({ ...s.extra, ...s.named, model: s.model, input: structuredClone(s.input), ...(s.tools ? { tools: buildTools(s.tools) } : {}), ...(s.toolChoice ? { toolChoice: s.toolChoice } : {}), ...(s.so ? { streamOptions: s.so } : {}), ...localCallbacks(), onEvent: () => {}, onFinish: () => {} }),
      body: s => ({
        ...snakeTop({ ...s.extra, ...s.named, model: s.model, toolChoice: s.toolChoice }), stream: true,
        input: typeof s.input === 'string' ? [{ type: 'message', role: 'user', content: s.input }] : s.input,
        ...(s.so ? { stream_options: snakeTop(s.so) } : {}),
        ...(s.tools ? { tools: s.tools.map(f => ({ type: 'function', name: f.name, description: f.description ?? null, parameters: f.parameters, strict: f.strict ?? true })) } : {}),
      }),
      reply: () => sseReply(sseText(responseEvents())), start: o => lib.responses.responses(o), run: async o => drainStreamText(lib.responses.responses(o)),
    },
  ]
  list.push({ ...tele(chatJSON('telemetry.generateText', T.generateText)) })
  list.push({ ...tele(chatSSE('telemetry.streamText', T.streamText)) })
  list.push(tele(embedBase('telemetry.embed', T.embed, false)))
  list.push(tele(embedBase('telemetry.embedMany', T.embedMany, true)))
  return list
}

// a case for "some endpoint with its generated options", as plain data
export const endpointCase = (eps, filter = () => true, more = {}) => {
  const use = eps.filter(filter)
  return fc.oneof(...use.map(e => fc.record({ ep: fc.constant(e.name), spec: e.spec(), ...more })))
}
