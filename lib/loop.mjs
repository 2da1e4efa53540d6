// Scenario generator and reference model of the multi-step text-generation loop.
// A scenario is plain data: caller options, tool behaviours, hooks, a scripted model server.
import { env } from './env.mjs'
import { clone, fc, frac, json, jsonVal, messagesArb, normUsage, splitText, text, text1, usageArb, wireUsage } from './kit.mjs'

export const TOOL_NAMES = ['weather', 'search', 'calc', 'Search']

// ------------------------------------------------------------------ tools
export const toolSpec = (opts = {}) => fc.record({
  name: fc.constantFrom(...TOOL_NAMES),
  kind: fc.constantFrom(...(opts.kinds ?? ['echo', 'echo', 'object', 'parts', 'rparts', 'tparts', 'aparts', 'mixed', 'array', 'throw', 'throwStr', 'unicode', 'error'])),
  sync: fc.boolean(),
  delay: opts.delay ?? fc.constantFrom(0, 0, 1, 2, 5, 9),
  validate: fc.constantFrom(...(opts.validates ?? ['none', 'none', 'pass', 'wrap', 'fail', 'needA', 'throw', 'asyncWrap'])),
})
export const toolsSpec = (opts = {}) => fc.uniqueArray(toolSpec(opts), { selector: t => t.name, minLength: opts.min ?? 1, maxLength: opts.max ?? 3 })

const resultOf = (t, input) => {
  switch (t.kind) {
    case 'echo': return JSON.stringify({ got: input })
    case 'object': return { echo: input, n: 1 }
    case 'parts': return [{ type: 'text', text: `${t.name}!` }, { type: 'image_url', image_url: { url: 'data:image/png;base64,AA==' } }]
    case 'rparts': return [{ type: 'input_text', text: `${t.name}!` }]
    case 'tparts': return [{ type: 'text', text: `${t.name}?` }, { type: 'text', text: '' }]
    case 'iparts': return [{ type: 'input_image', image_url: 'data:image/png;base64,AA==' }, { type: 'input_text', text: 'x' }]
    case 'fparts': return [{ type: 'input_file', file_id: 'f' }, { type: 'input_text', text: '' }]
    case 'aparts': return [{ type: 'input_audio', input_audio: { data: 'AA==', format: 'wav' } }, { type: 'file', file: { file_id: 'f' } }]
    case 'mixed': return [{ type: 'text', text: 'a' }, { type: 'custom', v: input }]
    case 'array': return [1, 'two', input]
    case 'error': return new RangeError('a result, not a failure')
    case 'emptyStr': return ''
    case 'big': return { list: Array.from({ length: 50 }, (_, i) => ({ i, input })) }
    case 'huge': return `${t.name}${'result '.repeat(40_000)}end`
    case 'nullPart': return [null, { type: 'text', text: 'x' }]
    case 'unicode': return `漢字😀\u2028"${t.name}"`
    default: throw new Error('unreachable')
  }
}
const validateOf = (kind, v) => {
  switch (kind) {
    case 'pass': return { value: v }
    case 'falsy': return { value: 0 }
    case 'nil': return { value: null }
    case 'wrap': case 'asyncWrap': return { value: { wrapped: v } }
    case 'asyncFail': case 'fail': return { issues: [{ message: 'nope' }] }
    case 'needA': return v !== null && typeof v === 'object' && 'a' in v ? { value: v } : { issues: [{ message: 'a is required' }] }
    default: return null
  }
}

// every call gets an input of its own: marks it, and tells whether it was marked before
const MARK = Symbol('used')
export const fresh = (input) => {
  if (input === null || typeof input !== 'object' || Object.isFrozen(input)) return true
  if (input[MARK]) return false
  Object.defineProperty(input, MARK, { value: true })
  return true
}
export const buildTool = (t, log) => ({
  type: 'function',
  function: { name: t.name, description: `does ${t.name}`, parameters: { type: 'object', properties: {} }, strict: false },
  ...(t.validate === 'none'
    ? {}
    : {
        validate: t.validate === 'throw'
          ? () => { throw new Error(`V-${t.name}`) }
          : t.validate === 'asyncWrap' || t.validate === 'asyncFail' ? async v => validateOf(t.validate, v) : v => validateOf(t.validate, v),
      }),
  execute: (input, o) => {
    const rec = { tool: t.name, input: fresh(input) ? clone(input) : '<input of another call>', toolCallId: o.toolCallId, messages: clone(o.messages), signal: o.abortSignal, start: env.now }
    log.push(rec)
    const body = () => {
      rec.end = env.now
      if (t.kind === 'throw') throw new Error(`E-${t.name}`)
      if (t.kind === 'throwStr') throw `S-${t.name}` // eslint-disable-line no-throw-literal
      if (t.kind === 'throwObj') throw { code: 7, toString: () => `O-${t.name}` } // eslint-disable-line no-throw-literal
      if (t.kind === 'throwType') throw new (class CustomError extends TypeError {})(`C-${t.name}`)
      if (t.kind === 'throwUndef') throw undefined // eslint-disable-line no-throw-literal
      return resultOf(t, input)
    }
    if (t.sync && t.delay === 0) return body()
    return (async () => {
      if (t.delay) await env.sleep(t.delay)
      return body()
    })()
  },
})

// ------------------------------------------------------------------ hooks
export const hooksSpec = (opts = {}) => fc.record({
  pre: fc.dictionary(fc.constantFrom(...TOOL_NAMES), fc.constantFrom('none', 'args', 'rename', 'result', 'errResult', 'falsy:""', 'falsy:0', 'falsy:null', 'falsy:[]', 'throw', 'asyncArgs', 'asyncThrow', 'renameGhost', 'blank', 'space', ...(opts.pre ?? [])), { maxKeys: opts.max ?? 2, noNullPrototype: true }),
  post: fc.dictionary(fc.constantFrom(...TOOL_NAMES), fc.constantFrom('none', 'rewrite', 'falsy:""', 'falsy:0', 'falsy:null', 'falsy:false', 'throw', 'asyncRewrite', 'asyncThrow', 'toError', ...(opts.post ?? [])), { maxKeys: opts.max ?? 2, noNullPrototype: true }),
})
// a hook's result may be any value, the falsy ones included
const falsyOf = kind => JSON.parse(kind.slice(6))
const preOf = (kind, call) => {
  if (typeof kind === 'string' && kind.startsWith('falsy:')) return { args: {}, result: falsyOf(kind), toolCallId: call.toolCallId, toolName: call.toolName }
  switch (kind) {
    case 'args': case 'asyncArgs': return { ...call, args: '{"a":"from-hook"}' }
    case 'blank': return { ...call, args: '' }
    case 'space': return { ...call, args: ' \n' }
    case 'rename': return { ...call, toolName: 'calc' }
    case 'renameGhost': return { ...call, toolName: 'phantom' }
    case 'badId': return { ...call, toolCallId: 'other' }
    case 'badIdResult': return { args: {}, result: 'x', toolCallId: 'other', toolName: call.toolName }
    case 'result': return { args: { cached: true }, result: `cached:${call.toolName}`, toolCallId: call.toolCallId, toolName: call.toolName }
    case 'errResult': return { args: {}, isError: true, result: 'denied', toolCallId: call.toolCallId, toolName: call.toolName }
    default: return undefined
  }
}
const postOf = (kind, res) => typeof kind === 'string' && kind.startsWith('falsy:') ? { ...res, result: falsyOf(kind) } : kind === 'rewrite' || kind === 'asyncRewrite'
  ? { ...res, result: { post: res.result } }
  : kind === 'toError' ? { ...res, isError: true, result: 'vetoed' } : kind === 'badId' ? { ...res, toolCallId: 'other' } : undefined
export const buildHooks = (h, log) => ({
  preToolCall: (call, o) => {
    log.push({ hook: 'pre', call: clone(call), id: o.toolCallId, at: env.now })
    const k = h.pre[call.toolName]
    if (k === 'throw') throw new Error(`PRE-${call.toolName}`)
    if (k === 'asyncThrow') return env.sleep(1).then(() => { throw new Error(`PRE-${call.toolName}`) })
    if (k === 'asyncArgs') return (async () => { await env.sleep(2); return preOf(k, call) })()
    return preOf(k, call)
  },
  postToolCall: (res, o) => {
    log.push({ hook: 'post', res: clone(res), id: o.toolCallId, at: env.now })
    const k = h.post[res.toolName]
    if (k === 'throw') throw new Error(`POST-${res.toolName}`)
    if (k === 'asyncThrow') return env.sleep(1).then(() => { throw new Error(`POST-${res.toolName}`) })
    if (k === 'asyncRewrite') return (async () => { await env.sleep(1); return postOf(k, res) })()
    return postOf(k, res)
  },
})

// ------------------------------------------------------------------ reference: one tool call
const PART_TYPES = ['file', 'image_url', 'input_audio', 'text']
export const wireContent = (r, types = PART_TYPES) => {
  if (typeof r === 'string') return r
  if (Array.isArray(r) && r.every(x => x !== null && typeof x === 'object' && types.includes(x.type))) return r
  return JSON.stringify(r)
}
export const modelTool = (call, tools, hooks, opts = {}) => {
  // call: { id, name, args }
  const errMsg = (name, m) => `Tool "${name}" execution failed: ${m}`
  let cc = { args: call.args, toolCallId: call.id, toolCallType: 'function', toolName: call.name }
  let cr
  let executed = false
  let input
  const pre = hooks?.pre?.[call.name] ?? 'none'
  if (hooks && (pre === 'throw' || pre === 'asyncThrow')) { cr = { args: cc.args, isError: true, result: errMsg(cc.toolName, `PRE-${cc.toolName}`), toolCallId: cc.toolCallId, toolName: cc.toolName } }
  else if (hooks) {
    const p = preOf(pre, cc)
    if (p && p.toolCallId !== cc.toolCallId) return { reject: 'tool_call_id_mismatch', executed: false }
    if (p && 'result' in p) cr = p
    else if (p) cc = p
  }
  const preResult = cr !== undefined
  if (!cr) {
    const bad = (args, m) => ({ args, isError: true, result: errMsg(cc.toolName, m), toolCallId: cc.toolCallId, toolName: cc.toolName })
    const t = (tools ?? []).find(x => x.name === cc.toolName)
    if (!t) {
      const avail = !tools || tools.length === 0 ? 'No tools are available' : `Available tools: ${tools.map(x => x.name).join(', ')}`
      cr = bad(cc.args, `Model tried to call unavailable tool "${cc.toolName}", ${avail}.`)
    }
    else {
      let parsed
      let parsedOk = true
      try { parsed = JSON.parse(cc.args.trim() || '{}') }
      catch { parsedOk = false }
      if (!parsedOk) { cr = bad(cc.args, `Failed to parse tool input for "${t.name}".`) }
      else if (t.validate === 'throw') { cr = bad(cc.args, `V-${t.name}`) }
      else {
        const v = t.validate === 'none' ? { value: parsed } : validateOf(t.validate, parsed)
        if (v.issues) { cr = bad(parsed, `Tool input validation failed for "${t.name}".`) }
        else {
          executed = true
          input = v.value
          if (t.kind === 'throw') cr = bad(v.value, `E-${t.name}`)
          else if (t.kind === 'throwStr') cr = bad(v.value, `S-${t.name}`)
          else if (t.kind === 'throwObj') cr = bad(v.value, `O-${t.name}`)
          else if (t.kind === 'throwType') cr = bad(v.value, `C-${t.name}`)
          else if (t.kind === 'throwUndef') cr = bad(v.value, 'undefined')
          else cr = { args: v.value, result: resultOf(t, v.value), toolCallId: cc.toolCallId, toolName: cc.toolName }
        }
      }
    }
  }
  const beforePost = cr
  if (executed && hooks) {
    const k = hooks.post?.[cr.toolName]
    if (k === 'badId') return { reject: 'tool_call_id_mismatch', executed: true, input }
    if (k === 'throw' || k === 'asyncThrow') cr = { args: cr.args, isError: true, result: errMsg(cr.toolName, `POST-${cr.toolName}`), toolCallId: cr.toolCallId, toolName: cr.toolName }
    else cr = postOf(k, cr) ?? cr
  }
  return { completionToolCall: cc, completionToolResult: cr, content: (opts.wrap ?? wireContent)(cr.result), executed, input, beforePost, preResult }
}

// ------------------------------------------------------------------ stop conditions
export const stopSpec = (depth = 2) => fc.letrec(tie => ({
  s: fc.oneof({ maxDepth: depth, withCrossShrink: true },
    fc.integer({ min: 0, max: 5 }).map(n => ({ k: 'count', n })),
    fc.option(fc.constantFrom(...TOOL_NAMES, 'ghost', ''), { nil: undefined }).map(name => ({ k: 'tool', name })),
    fc.array(tie('s'), { maxLength: 3 }).map(c => ({ k: 'and', c })),
    fc.array(tie('s'), { maxLength: 3 }).map(c => ({ k: 'or', c })),
    tie('s').map(c => ({ k: 'not', c })),
    fc.constantFrom('length', 'tool_calls', 'stop').map(f => ({ k: 'finish', f })),
    fc.constantFrom('a', 'e', '').map(s => ({ k: 'text', s })),
    fc.nat({ max: 9 }).map(n => ({ k: 'inputLen', n })),
    fc.nat({ max: 9000 }).map(n => ({ k: 'usage', n })),
  ),
})).s
export const evalStop = (a, ctx) => {
  switch (a.k) {
    case 'count': return ctx.steps.length >= a.n
    case 'tool': return ctx.step.toolCalls.some(c => a.name === undefined || c.toolName === a.name)
    case 'and': return a.c.every(x => evalStop(x, ctx))
    case 'or': return a.c.some(x => evalStop(x, ctx))
    case 'not': return !evalStop(a.c, ctx)
    case 'finish': return ctx.step.finishReason === a.f
    case 'text': return (ctx.step.text ?? '').includes(a.s)
    case 'inputLen': return ctx.input.length >= a.n
    case 'usage': return ctx.steps.reduce((t, s) => t + (s.usage?.totalTokens ?? 0), 0) >= a.n
  }
}
export const buildStop = (a, C) => {
  switch (a.k) {
    case 'count': return C.stepCountAtLeast(a.n)
    case 'tool': return C.hasToolCall(a.name)
    case 'and': return C.and(...a.c.map(x => buildStop(x, C)))
    case 'or': return C.or(...a.c.map(x => buildStop(x, C)))
    case 'not': return C.not(buildStop(a.c, C))
    default: return ctx => evalStop(a, ctx)
  }
}

// ------------------------------------------------------------------ scripted steps
const argsText = () => fc.oneof(
  { weight: 5, arbitrary: jsonVal(2).map(v => JSON.stringify(v !== null && typeof v === 'object' ? v : { a: v })) },
  { weight: 1, arbitrary: fc.constantFrom('', ' ', '{}', '{"a":1}', ' {"a":"x"}\n') },
  { weight: 1, arbitrary: fc.constantFrom('{', 'not json', '{"a":}', '5', '"s"', '[1]', 'null', '{"a":1}{"a":2}') },
)
export const callArgs = argsText
export const stepSpec = (opts = {}) => fc.record({
  text: fc.oneof({ weight: 3, arbitrary: text(opts.text ?? 5) }, { weight: 2, arbitrary: fc.constant(null) }),
  parts: opts.parts === false ? fc.constant(null) : fc.option(fc.array(fc.oneof(text(2).map(t => ({ type: 'text', text: t })), text(1).map(r => ({ type: 'refusal', refusal: r }))), { maxLength: 3 }), { nil: null, freq: 5 }),
  reasoning: fc.option(fc.record({ field: fc.constantFrom('reasoning', 'reasoning_content'), text: fc.oneof({ weight: 8, arbitrary: text1(3) }, { weight: 1, arbitrary: fc.constant('') }) }), { nil: null, freq: 2 }),
  calls: fc.array(fc.record({ name: fc.oneof({ weight: 6, arbitrary: fc.constantFrom(...TOOL_NAMES) }, { weight: 1, arbitrary: fc.constantFrom('ghost', 'ghost', 'SEARCH', 'calc ', 'weath', 'calculate', 'weather2', '') }), args: argsText() }), { minLength: opts.minCalls ?? 0, maxLength: opts.maxCalls ?? 3 }),
  finish: fc.constantFrom('tool_calls', 'stop', 'length', 'content_filter', 'custom'),
  usage: fc.option(usageArb(), { nil: null, freq: 7 }), // null: the server reports none
  usageNull: fc.boolean(), // … and says so
  // some servers give every call of a reply the same id, or none
  ids: opts.ids ? fc.oneof({ weight: 10, arbitrary: fc.constant('own') }, { weight: 2, arbitrary: fc.constantFrom('same', 'empty') }) : fc.constant('own'),
})
const stepsOf = (opts = {}) => fc.array(stepSpec({ ...opts, minCalls: opts.minCalls ?? 1 }), { minLength: opts.minSteps ?? 0, maxLength: opts.maxSteps ?? 4 })
  .chain(list => stepSpec({ ...opts, minCalls: 0, maxCalls: 0 }).map(last => [...list, last]))
// now and then many steps, or many calls in one step, where nothing else was asked for
export const stepsSpec = (opts = {}) => opts.maxSteps === undefined && opts.maxCalls === undefined
  ? fc.oneof({ withCrossShrink: true }, { weight: 40, arbitrary: stepsOf(opts) }, { weight: 1, arbitrary: stepsOf({ ...opts, maxSteps: 13, maxCalls: 1, text: 1 }) }, { weight: 1, arbitrary: stepsOf({ ...opts, maxSteps: 2, maxCalls: 14, text: 1 }) })
  : stepsOf(opts)

export const scenario = (opts = {}) => fc.record({
  messages: messagesArb(opts.messages ?? 3),
  model: fc.constantFrom('m-1', 'gpt-x'),
  toolChoice: fc.constantFrom(undefined, 'auto', 'required', { type: 'function', function: { name: 'weather' } }),
  tools: fc.option(fc.oneof({ weight: 20, arbitrary: toolsSpec(opts.tool) }, { weight: 1, arbitrary: fc.constant([]) }), { nil: undefined, freq: 12 }),
  script: stepsSpec(opts.step),
  stop: opts.stop ?? fc.oneof({ weight: 4, arbitrary: fc.integer({ min: 1, max: 6 }).map(n => ({ k: 'count', n })) }, { weight: 2, arbitrary: stopSpec() }, { weight: 1, arbitrary: fc.constant(undefined) }, { weight: 2, arbitrary: fc.constant({ k: 'or', c: [] }) }),
  prepare: opts.prepare ?? fc.option(prepareSpec(), { nil: undefined }),
  hooks: opts.hooks ?? fc.option(hooksSpec(), { nil: undefined }),
  latency: fc.constantFrom(0, 0, 3),
  temperature: fc.constantFrom(undefined, 0, 1),
})
// histories well beyond the usual length: many steps, many calls, long texts
export const longRun = () => ({ messages: 12, step: { parts: false, minSteps: 6, maxSteps: 14, maxCalls: 14, text: 40 }, tool: { min: 3, max: 4 }, stop: fc.oneof({ weight: 1, arbitrary: fc.integer({ min: 5, max: 16 }).map(n => ({ k: 'count', n })) }, { weight: 2, arbitrary: fc.constant({ k: 'or', c: [] }) }) })
// far beyond any usual size in a single respect, and plain in every other: steps, calls of one step, a text, arguments, a tool result
const LONG = 'long é '.repeat(30_000)
export const MARATHON = ['steps', 'steps', 'calls', 'text', 'reasoning', 'args', 'result']
export const marathonSteps = (what, n, field, names) => {
  const call = i => ({ name: names[i % names.length], args: what === 'args' ? JSON.stringify({ a: LONG + i }) : `{"a":${i}}` })
  const st = (i, calls) => ({ text: what === 'text' ? `${LONG}${i}` : `t${i}`, parts: null, reasoning: what === 'reasoning' ? { field, text: `${LONG}${i}` } : null, calls: Array.from({ length: calls }, (_, k) => call(i + k)), finish: calls ? 'tool_calls' : 'stop', usage: { p: 1, c: i, extra: 0 } })
  const big = what === 'steps' ? n : 1
  return [...Array.from({ length: big }, (_, i) => st(i, what === 'calls' ? n : 1)), st(big, 0)]
}
const plainTools = what => TOOL_NAMES.map(name => ({ name, kind: what === 'result' ? 'huge' : 'echo', sync: name !== 'calc', delay: name === 'search' ? 1 : 0, validate: 'none' }))
export const marathonOf = (base, script) => fc.record({ base, what: fc.constantFrom(...MARATHON), n: fc.integer({ min: 70, max: 150 }), field: fc.constantFrom('reasoning', 'reasoning_content'), stop: fc.constantFrom({ k: 'or', c: [] }, { k: 'count', n: 140 }) })
  .map(({ base, what, n, field, stop }) => ({ ...base, what, tools: plainTools(what), stop, hooks: undefined, prepare: undefined, script: script(what, n, field, TOOL_NAMES) }))
export const marathon = () => marathonOf(scenario({ messages: 1, step: { maxSteps: 0 } }), marathonSteps)
export const prepareSpec = () => fc.record({
  async: fc.boolean(), mutate: fc.boolean(), empty: fc.boolean(),
  per: fc.array(fc.record({
    input: fc.option(fc.oneof({ weight: 6, arbitrary: messagesArb(2) }, { weight: 1, arbitrary: fc.constant([]) }), { nil: undefined }),
    model: fc.option(fc.constantFrom('m-2', 'm-3', 'm-2', 'm-3', ''), { nil: undefined }),
    toolChoice: fc.option(fc.constantFrom('none', 'required'), { nil: undefined }),
    appendToInput: fc.boolean(),
  }), { maxLength: 5 }),
})

const EXTRA = { role: 'system', content: 'prepended by prepareStep' }
export const preparedFor = (sc, n, input) => {
  const p = sc.prepare?.per[n]
  if (!p) return {}
  const o = {}
  if (p.input) o.input = clone(p.input)
  else if (p.appendToInput) o.input = [clone(EXTRA), ...input]
  if (p.model !== undefined) o.model = p.model
  if (p.toolChoice) o.toolChoice = p.toolChoice
  return o
}

// caller options for the real code; `seen` collects everything observable through callbacks
export const buildOptions = (sc, C, seen, extra = {}) => {
  const o = { baseURL: 'https://h.example/v1/', apiKey: 'k', model: sc.model, ...(sc.messages ? { messages: clone(sc.messages) } : { input: clone(sc.input) }) }
  if (sc.temperature !== undefined) o.temperature = sc.temperature
  if (sc.toolChoice !== undefined) o.toolChoice = clone(sc.toolChoice)
  if (sc.tools) o.tools = sc.tools.map(t => buildTool(t, seen.exec))
  if (sc.stop) {
    const cond = buildStop(sc.stop, C)
    o.stopWhen = (ctx) => {
      const r = cond(ctx)
      seen.stops.push({ input: clone(ctx.input), step: clone(ctx.step), steps: clone(ctx.steps), r })
      return r
    }
  }
  if (sc.hooks) Object.assign(o, buildHooks(sc.hooks, seen.hooks))
  if (sc.prepare) {
    o.prepareStep = (arg) => {
      seen.prepares.push(clone(arg))
      const out = sc.prepare.empty && !sc.prepare.per[arg.stepNumber] ? undefined : preparedFor(sc, arg.stepNumber, clone(arg.input))
      if (sc.prepare.mutate) {
        arg.input.push({ role: 'user', content: 'MUTATED' })
        if (arg.input[0]) arg.input[0].content = 'MUTATED'
        for (const s of arg.steps) { s.text = 'MUTATED'; s.toolCalls.length = 0 }
        arg.steps.length = 0
        if (out?.input) seen.handed.push(out.input)
      }
      return sc.prepare.async ? env.sleep(1).then(() => out) : out
    }
  }
  o.onStepFinish = (step) => { seen.stepFinish.push(clone(step)) }
  return Object.assign(o, extra)
}
export const newSeen = () => ({ exec: [], stops: [], hooks: [], prepares: [], stepFinish: [], handed: [], events: [], finish: [] })

// ------------------------------------------------------------------ server side
export const replyJSON = (st, n) => ({
  id: `r${n}`, object: 'chat.completion', created: 1, model: 'm', system_fingerprint: 'fp',
  choices: [{
    index: 0, finish_reason: st.finish,
    message: assistantMessage(st, n),
  }, ...(n % 2 === 1 ? [{ index: 1, finish_reason: 'stop', message: { role: 'assistant', content: 'IGNORED' } }] : [])],
  ...(st.usage ? { usage: wireUsage(st.usage) } : st.usageNull ? { usage: null } : {}),
})
export const callId = (n, i) => `call_${n}_${i}`
export const idOf = (st, n, i) => st.ids === 'empty' ? '' : callId(n, st.ids === 'same' ? 0 : i)
const assistantMessage = (st, n) => ({
  role: 'assistant',
  content: st.parts ?? st.text,
  ...(st.reasoning ? { [st.reasoning.field]: st.reasoning.text } : {}),
  ...(st.calls.length > 0 ? { tool_calls: st.calls.map((c, i) => ({ id: idOf(st, n, i), type: 'function', function: { name: c.name, arguments: c.args } })) } : {}),
})
export const FALLBACK = { text: 'END', parts: null, reasoning: null, calls: [], finish: 'stop', usage: { p: 1, c: 1, extra: 0 } }

// plan of how one scripted step is cut into stream chunks
export const chunkPlan = () => fc.record({
  textCuts: fc.array(frac(), { maxLength: 4 }),
  reasonCuts: fc.array(frac(), { maxLength: 3 }),
  argCuts: fc.array(frac(), { maxLength: 4 }),
  order: fc.array(fc.nat({ max: 7 }), { minLength: 1, maxLength: 6 }),
  usage: fc.constantFrom('separate', 'final', 'none', 'null-then-separate', 'repeat', 'growing', 'running', 'trailing'),
  close: fc.constantFrom('own', 'own', 'own', 'own', 'last', 'last', 'none'), // the finish reason has a chunk of its own, comes with the last delta, or is missing
  stride: fc.constantFrom(1, 1, 2, 3), // tool-call indexes: base, base + stride, ...
  base: fc.constantFrom(0, 0, 1),
  mixCall: fc.boolean(), // the last piece of text shares a chunk with the first tool-call delta
  refusal: fc.boolean(), // text arrives as a refusal
  emptyDeltas: fc.boolean(),
  role: fc.boolean(),
  nulls: fc.boolean(),
  firstArgs: fc.constantFrom('piece', 'empty', 'absent'),
  again: fc.constantFrom('none', 'none', 'same', 'empty', 'null'), // later deltas repeat the call's id, type and name, or send them blank
  bare: fc.boolean(), // an argument-less delta for an already announced call
  batch: fc.boolean(), // several tool-call deltas in one chunk
  mixReason: fc.boolean(), // reasoning and text in the same chunk
  side: fc.boolean(), // chunks without choices
  both: fc.constantFrom('no', 'no', 'same', 'null'), // the reasoning also comes, or is null, in the other field
  scramble: fc.boolean(), // calls are announced in any order, not only that of their indexes
  after: fc.boolean(), // a blank chunk follows the finish reason
  weave: fc.boolean(), // pieces of reasoning and of text take turns
  late: fc.constantFrom(0, 0, 0, 1, 2), // that many last pieces of text come between or after the tool-call deltas
})
export const replyChunks = (st, n, plan) => {
  const out = []
  const at = i => plan.base + i * plan.stride
  const TXT = plan.refusal ? 'refusal' : 'content'
  const mk = (delta, extra = {}) => ({ id: `c${n}`, object: 'chat.completion.chunk', created: 1, model: 'm', choices: [{ index: 0, delta: plan.nulls ? { content: null, tool_calls: undefined, ...delta } : delta, finish_reason: null, ...extra.choice }], ...(extra.top ?? {}) })
  if (plan.role) out.push(mk({ role: 'assistant', content: '' }))
  if (plan.side) out.push({ id: `c${n}`, object: 'chat.completion.chunk', choices: [] })
  const reason = st.reasoning ? splitText(st.reasoning.text, plan.reasonCuts) : []
  const pieces = st.text === null ? [] : splitText(st.text, plan.textCuts)
  const late = st.calls.length > 0 && plan.late > 0 ? pieces.slice(-plan.late) : []
  const txt = pieces.slice(0, pieces.length - late.length)
  const think = r => st.reasoning.field === 'reasoning'
    ? { reasoning: r, ...(plan.both === 'same' ? { reasoning_content: r } : plan.both === 'null' ? { reasoning_content: null } : {}) }
    : { ...(plan.both === 'null' ? { reasoning: null } : {}), reasoning_content: r }
  if (plan.mixReason && reason.length > 0 && txt.length > 0) {
    reason.slice(0, -1).forEach(r => out.push(mk(think(r))))
    out.push(mk({ ...think(reason.at(-1)), [TXT]: txt[0] }))
    txt.slice(1).forEach(t => out.push(mk({ [TXT]: t })))
  }
  else if (plan.weave) {
    for (let i = 0; i < Math.max(reason.length, txt.length); i++) {
      if (i < reason.length) out.push(mk(think(reason[i])))
      if (i < txt.length) out.push(mk({ [TXT]: txt[i] }))
    }
  }
  else {
    reason.forEach(r => out.push(mk(think(r))))
    txt.forEach(t => out.push(mk({ [TXT]: t })))
  }
  // tool-call deltas: per call a queue, merged in a generated order
  const queues = st.calls.map((c, i) => {
    const pieces = splitText(c.args, plan.argCuts)
    const head = { index: at(i), id: idOf(st, n, i), type: 'function', function: { name: c.name } }
    const q = []
    if (plan.firstArgs === 'piece') { head.function.arguments = pieces.shift() }
    else if (plan.firstArgs === 'empty') { head.function.arguments = '' }
    q.push(head)
    pieces.forEach((p, k) => {
      if (plan.bare && k === 0) q.push({ index: at(i), function: {} })
      const more = plan.again === 'same' ? [{ id: idOf(st, n, i), type: 'function' }, { name: c.name }] : plan.again === 'empty' ? [{ id: '', type: 'function' }, { name: '' }] : plan.again === 'null' ? [{ id: null, type: null }, { name: null }] : [{}, {}]
      q.push({ index: at(i), ...more[0], function: { ...more[1], arguments: p } })
    })
    return q
  })
  const merged = []
  let started = 0
  let k = 0
  while (queues.some(q => q.length > 0)) {
    const open = queues.map((q, i) => i).filter(i => queues[i].length > 0 && (plan.scramble || i <= started))
    const pick = open[plan.order[k++ % plan.order.length] % open.length]
    if (pick === started) started++
    merged.push(queues[pick].shift())
  }
  if (plan.emptyDeltas) out.push(mk({}), mk({ tool_calls: [] }))
  if (plan.mixCall && merged.length > 0 && txt.length > 0 && out.at(-1).choices[0]?.delta[TXT] !== undefined && !(plan.mixReason && reason.length > 0 && txt.length === 1) && !plan.emptyDeltas)
    Object.assign(out.at(-1).choices[0].delta, { tool_calls: [merged.shift()] })
  const width = plan.batch ? 2 : 1
  const tail = []
  for (let i = 0; i < merged.length; i += width) tail.push(mk({ tool_calls: merged.slice(i, i + width) }))
  let floor = 1
  late.forEach((t, i) => {
    const where = Math.min(floor + plan.order[i % plan.order.length], tail.length)
    tail.splice(where, 0, mk({ [TXT]: t }))
    floor = where + 1
  })
  out.push(...tail)
  if (!st.usage) plan = { ...plan, usage: 'none' }
  const u = st.usage && wireUsage(st.usage)
  if (plan.close !== 'last' || out.length === 0 || out.at(-1).choices.length === 0) out.push(mk({}))
  const end = out.at(-1)
  if (plan.close !== 'none') end.choices[0].finish_reason = st.finish
  if (plan.usage === 'final' || plan.usage === 'repeat') end.usage = u
  if (plan.usage === 'null-then-separate') end.usage = null
  if (plan.usage === 'growing' || plan.usage === 'running') out.forEach((c, i) => { c.usage = { prompt_tokens: u.prompt_tokens, completion_tokens: Math.min(i, u.completion_tokens), total_tokens: u.prompt_tokens + Math.min(i, u.completion_tokens) } })
  if (plan.usage === 'running') end.usage = u
  if (plan.after) out.push(mk({}))
  // the usage may come after the finish on a chunk that has a choice
  if (plan.usage === 'trailing') out.push({ ...mk({}), usage: u })
  if (plan.usage === 'separate' || plan.usage === 'repeat' || plan.usage === 'growing' || plan.usage === 'null-then-separate') out.push({ id: `c${n}`, object: 'chat.completion.chunk', created: 1, model: 'm', choices: [], usage: u })
  return out
}
export const planHasUsage = p => p.usage !== 'none'

// ------------------------------------------------------------------ reference: the loop
// mode: 'generate' | 'stream'; plans: per-step chunk plans in stream mode
export const modelLoop = (sc, mode, plans = []) => {
  const history = json(sc.messages)
  const steps = []
  const out = { requests: [], history, steps, prepares: [], stops: [], exec: [], posts: [], pres: [], totalUsage: undefined }
  const hooks = sc.hooks
  for (let n = 0; ; n++) {
    if (sc.prepare) out.prepares.push({ input: clone(history), model: sc.model, stepNumber: n, steps: clone(steps) })
    const p = sc.prepare ? preparedFor(sc, n, clone(history)) : {}
    out.requests.push({ messages: json(p.input ?? history), model: p.model ?? sc.model, tool_choice: p.toolChoice ?? sc.toolChoice })
    const st = sc.script[n] ?? FALLBACK
    const plan = plans[n % (plans.length || 1)]
    const usage = st.usage && (mode === 'generate' || planHasUsage(plan)) ? normUsage(st.usage) : undefined
    const content = mode === 'generate'
      ? (st.parts ?? st.text)
      : (st.text ?? '')
    const calls = st.calls.map((c, i) => ({ id: idOf(st, n, i), name: c.name, args: c.args }))
    if (mode === 'generate') { history.push(assistantMessage(st, n)) }
    else {
      history.push({
        role: 'assistant', content,
        ...(st.reasoning ? { [st.reasoning.field]: st.reasoning.text } : {}),
        ...(calls.length > 0 ? { tool_calls: calls.map(c => ({ id: c.id, type: 'function', function: { name: c.name, arguments: c.args } })) } : {}),
      })
    }
    const stepText = Array.isArray(content) ? content.filter(x => x.type === 'text').map(x => x.text).join('\n') : content
    const handed = calls.map(c => ({ args: c.args, toolCallId: c.id, toolCallType: 'function', toolName: c.name }))
    const finishReason = mode === 'stream' && plan?.close === 'none' ? 'other' : st.finish
    const step = { finishReason, text: stepText, toolCalls: handed, toolResults: [], usage }
    const ctx = { input: clone(history), step: clone(step), steps: clone([...steps, step]) }
    const stop = evalStop(sc.stop ?? { k: 'count', n: 1 }, ctx)
    out.stops.push({ ...ctx, r: stop })
    if (usage) out.totalUsage = out.totalUsage ? { inputTokens: out.totalUsage.inputTokens + usage.inputTokens, outputTokens: out.totalUsage.outputTokens + usage.outputTokens, totalTokens: out.totalUsage.totalTokens + usage.totalTokens } : { ...usage }
    if (!stop && calls.length > 0) {
      const at = clone(history)
      const rs = calls.map(c => modelTool(c, sc.tools, hooks))
      step.toolCalls = rs.map(r => r.completionToolCall)
      step.toolResults = rs.map(r => r.completionToolResult)
      calls.forEach((c, i) => {
        if (rs[i].executed) out.exec.push({ tool: rs[i].completionToolCall.toolName, input: rs[i].input, toolCallId: c.id, messages: at })
        if (rs[i].executed && hooks) out.posts.push({ id: c.id, res: rs[i].beforePost })
        if (hooks) out.pres.push({ id: c.id, call: handed[i] })
        history.push({ role: 'tool', content: rs[i].content, tool_call_id: c.id })
      })
    }
    steps.push(step)
    out.lastReasoning = st.reasoning?.text
    out.lastMessage = history.findLast(m => m.role === 'assistant')
    if (calls.length === 0 || stop) return out
  }
}

// history comparison ignores the wire-level `index` streaming deltas carry
export const dropIndex = ms => json(ms).map(m => m.tool_calls ? { ...m, tool_calls: m.tool_calls.map(({ index: _i, ...c }) => c) } : m)
