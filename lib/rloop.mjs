// Scenarios, scripted server and reference model of the responses protocol.
import { clone, fc, frac, json, jsonVal, splitText, text, text1, usageArb } from './kit.mjs'
import { evalStop, hooksSpec, marathonOf, marathonSteps, modelTool, preparedFor, prepareSpec, stopSpec, TOOL_NAMES, toolsSpec, wireContent } from './loop.mjs'

const argsText = () => fc.oneof(
  { weight: 5, arbitrary: jsonVal(2).map(v => JSON.stringify(v !== null && typeof v === 'object' ? v : { a: v })) },
  { weight: 1, arbitrary: fc.constantFrom('', '{}', '{"a":1}', '{', 'not json', '5') },
)
const cuts = () => fc.array(frac(), { maxLength: 3 })
export const messageItem = (size = 4) => fc.record({ k: fc.constant('message'), parts: fc.array(fc.record({ t: fc.constantFrom('output_text', 'output_text', 'refusal', 'text'), text: text(size) }), { minLength: 0, maxLength: 3 }) })
export const reasoningItem = () => fc.record({ k: fc.constant('reasoning'), texts: fc.oneof({ weight: 4, arbitrary: text1(3).map(t => [t]) }, { weight: 2, arbitrary: fc.array(text1(2), { maxLength: 3 }) }), form: fc.constantFrom('summary', 'content'), bare: fc.boolean(), enc: fc.boolean() })
export const callItem = () => fc.record({ k: fc.constant('call'), name: fc.oneof({ weight: 6, arbitrary: fc.constantFrom(...TOOL_NAMES) }, { weight: 1, arbitrary: fc.constantFrom('ghost', 'ghost', 'SEARCH', 'calc ', 'weath') }), args: argsText() })
export const otherItem = () => fc.constantFrom({ k: 'compaction' }, { k: 'vendor' })

export const rStep = (opts = {}) => fc.record({
  items: fc.array(fc.oneof({ weight: 3, arbitrary: messageItem(opts.text) }, { weight: 2, arbitrary: reasoningItem() }, ...(opts.calls === false ? [] : [{ weight: 4, arbitrary: callItem() }]), { weight: 1, arbitrary: otherItem() }), { minLength: opts.min ?? 0, maxLength: opts.maxItems ?? 5 }),
  status: opts.statuses ? fc.constantFrom(...opts.statuses) : fc.constant('completed'),
  usage: fc.option(usageArb(), { nil: null, freq: 6 }),
  cuts: cuts(),
  noise: fc.boolean(),
  again: fc.constantFrom(false, false, false, true), // a server that numbers its items from the start in every reply
  // a reply that breaks off may leave its last item incomplete
}).map(s => s.status !== 'incomplete' || !s.noise || s.items.length === 0 ? s : { ...s, items: s.items.map((it, i) => i < s.items.length - 1 ? it : { ...it, cut: true }) })
// intermediate steps hold at least one call; the last one holds none
export const rScript = (opts = {}) => fc.tuple(
  fc.array(fc.tuple(rStep(), callItem()).map(([s, c]) => ({ ...s, items: s.items.some(i => i.k === 'call') ? s.items : [...s.items, c] })), { minLength: opts.minSteps ?? 0, maxLength: opts.maxSteps ?? 3 }),
  fc.oneof(
    { weight: 8, arbitrary: rStep({ calls: false, text: opts.text, statuses: opts.statuses ?? ['completed', 'completed', 'completed', 'failed', 'incomplete'] }) },
    // a reply that breaks off after some calls
    ...(opts.statuses ? [] : [{ weight: 1, arbitrary: rStep({ text: opts.text, statuses: ['failed', 'incomplete'] }) }]),
  ),
).map(([a, b]) => [...a, b]).chain(steps => !opts.ids ? fc.constant(steps) : fc.oneof({ weight: 5, arbitrary: fc.constant('own') }, { weight: 1, arbitrary: fc.constantFrom('same', 'empty') })
  // some servers give every call of a reply the same id, or none
  .map(cid => cid === 'own' ? steps : steps.map(s => ({ ...s, items: s.items.map(it => it.k === 'call' ? { ...it, cid } : it) }))))

const inputArb = () => fc.oneof(
  text(4),
  fc.array(fc.oneof(
    text(3).map(content => ({ type: 'message', role: 'user', content })),
    text(3).map(t => ({ type: 'message', role: 'user', content: [{ type: 'input_text', text: t }] })),
    text(2).map(content => ({ role: 'system', content })),
    text(2).map(output => ({ type: 'function_call_output', call_id: 'old', output })),
  ), { minLength: 0, maxLength: 3 }),
)
export const rScenario = (opts = {}) => fc.record({
  input: inputArb(),
  model: fc.constantFrom('m-1', 'gpt-x'),
  toolChoice: fc.constantFrom(undefined, 'auto', 'required'),
  tools: fc.option(fc.oneof({ weight: 20, arbitrary: toolsSpec({ ...opts.tool, kinds: opts.tool?.kinds ?? ['echo', 'echo', 'object', 'parts', 'rparts', 'tparts', 'iparts', 'fparts', 'aparts', 'mixed', 'array', 'throw', 'throwStr', 'unicode', 'error'] }) }, { weight: 1, arbitrary: fc.constant([]) }), { nil: undefined, freq: 12 }),
  script: rScript(opts),
  stop: opts.stop ?? fc.oneof({ weight: 4, arbitrary: fc.integer({ min: 1, max: 6 }).map(n => ({ k: 'count', n })) }, { weight: 2, arbitrary: stopSpec() }, { weight: 1, arbitrary: fc.constant(undefined) }, { weight: 3, arbitrary: fc.constant({ k: 'or', c: [] }) }),
  prepare: opts.prepare ?? fc.option(prepareSpec(), { nil: undefined }),
  hooks: opts.hooks ?? fc.option(hooksSpec(), { nil: undefined }),
  latency: fc.constantFrom(0, 0, 3),
})
export const longRRun = () => ({ minSteps: 5, maxSteps: 12, maxItems: 14, tool: { min: 3, max: 4 }, stop: fc.oneof({ weight: 1, arbitrary: fc.integer({ min: 5, max: 14 }).map(n => ({ k: 'count', n })) }, { weight: 2, arbitrary: fc.constant({ k: 'or', c: [] }) }) })
const rMarathonSteps = (...a) => marathonSteps(...a).map(s => ({
  items: [...(s.reasoning ? [{ k: 'reasoning', texts: [s.reasoning.text], form: s.reasoning.field === 'reasoning' ? 'summary' : 'content', bare: false }] : []), { k: 'message', parts: [{ t: 'output_text', text: s.text }] }, ...s.calls.map(c => ({ k: 'call', ...c }))],
  status: 'completed', usage: s.usage, cuts: [0.3, 0.7], noise: false, again: false,
}))
export const rMarathon = () => marathonOf(rScenario({ maxSteps: 0 }), rMarathonSteps)
export const R_FALLBACK = { items: [{ k: 'message', parts: [{ t: 'output_text', text: 'END' }] }], status: 'completed', usage: { p: 1, c: 1, extra: 0 }, cuts: [], noise: false }

const callIdOf = (it, n, i) => it.cid === 'empty' ? '' : it.cid === 'same' ? `call_${n}` : `call_${n}_${i}`
export const wireItem = (it, turn, i, again = false) => {
  const n = again ? 0 : turn
  switch (it.k) {
    case 'message': return { id: `msg_${n}_${i}`, type: 'message', role: 'assistant', status: it.cut ? 'incomplete' : 'completed', content: it.parts.map(p => p.t === 'refusal' ? { type: 'refusal', refusal: p.text } : p.t === 'text' ? { type: 'text', text: p.text } : { type: 'output_text', text: p.text, annotations: [], logprobs: [] }) }
    case 'reasoning': return { id: `rs_${n}_${i}`, type: 'reasoning', summary: it.form === 'summary' ? it.texts.map(text => ({ type: 'summary_text', text })) : [], ...(it.form === 'content' ? { content: it.texts.map(text => ({ type: 'reasoning_text', text })) } : {}), ...(it.enc ? { encrypted_content: 'gAAA' } : {}) }
    case 'call': return { id: `fc_${n}_${i}`, type: 'function_call', call_id: callIdOf(it, turn, i), name: it.name, arguments: it.args, status: it.cut ? 'incomplete' : 'completed' }
    case 'compaction': return { id: `cmp_${n}_${i}`, type: 'compaction', encrypted_content: 'zip' }
    case 'vendor': return { id: `v_${n}_${i}`, type: 'acme:search_call', status: it.cut ? 'incomplete' : 'completed', query: 'q' }
  }
}
export const rUsage = u => u === null ? null : { input_tokens: u.p, output_tokens: u.c, total_tokens: u.p + u.c + u.extra, input_tokens_details: { cached_tokens: 0 }, output_tokens_details: { reasoning_tokens: 0 } }
export const rNorm = u => u === null ? undefined : { inputTokens: u.p, outputTokens: u.c, totalTokens: u.p + u.c + u.extra }
export const isCall = it => it.k === 'call'

export const rEvents = (st, n) => {
  const out = []
  let seq = 0
  const push = (type, o = {}) => out.push({ type, sequence_number: seq++, ...o })
  const skeleton = { id: `resp_${n}`, object: 'response', model: 'm' }
  push('response.created', { response: { ...skeleton, status: 'in_progress', output: [] } })
  if (st.noise) push('response.in_progress', { response: { ...skeleton, status: 'in_progress', output: [] } })
  const output = st.items.map((it, i) => wireItem(it, n, i, st.again))
  st.items.forEach((it, i) => {
    const w = output[i]
    const at = { output_index: i, item_id: w.id }
    push('response.output_item.added', { output_index: i, item: it.k === 'message' ? { ...w, status: 'in_progress', content: [] } : it.k === 'call' ? { ...w, status: 'in_progress', arguments: '' } : it.k === 'reasoning' ? { ...w, summary: [] } : w })
    if (it.k === 'message') {
      it.parts.forEach((p, k) => {
        const c = { ...at, content_index: k }
        const refusal = p.t === 'refusal'
        push('response.content_part.added', { ...c, part: refusal ? { type: 'refusal', refusal: '' } : p.t === 'text' ? { type: 'text', text: '' } : { type: 'output_text', text: '', annotations: [] } })
        for (const d of splitText(p.text, st.cuts)) push(refusal ? 'response.refusal.delta' : 'response.output_text.delta', { ...c, delta: d })
        if (refusal) push('response.refusal.done', { ...c, refusal: p.text })
        else push('response.output_text.done', { ...c, text: p.text })
        push('response.content_part.done', { ...c, part: w.content[k] })
      })
    }
    else if (it.k === 'reasoning') {
      const s = it.form === 'summary'
      it.texts.forEach((txt, k) => {
        const c = { ...at, [s ? 'summary_index' : 'content_index']: k }
        const part = { type: s ? 'summary_text' : 'reasoning_text', text: '' }
        if (!it.bare) push(s ? 'response.reasoning_summary_part.added' : 'response.content_part.added', { ...c, part })
        for (const d of splitText(txt, st.cuts)) push(s ? 'response.reasoning_summary_text.delta' : 'response.reasoning.delta', { ...c, delta: d })
        push(s ? 'response.reasoning_summary_text.done' : 'response.reasoning.done', { ...c, text: txt })
        if (!it.bare) push(s ? 'response.reasoning_summary_part.done' : 'response.content_part.done', { ...c, part: { ...part, text: txt } })
      })
    }
    else if (it.k === 'call') {
      for (const d of splitText(it.args, st.cuts)) push('response.function_call_arguments.delta', { ...at, delta: d })
      push('response.function_call_arguments.done', { ...at, arguments: it.args })
    }
    push('response.output_item.done', { output_index: i, item: w })
  })
  const type = `response.${st.status}`
  push(type, { response: { ...skeleton, status: st.status, output, usage: rUsage(st.usage), ...(st.status === 'failed' ? { error: { code: 'server_error', message: 'boom' } } : {}), ...(st.status === 'incomplete' ? { incomplete_details: { reason: 'max_output_tokens' } } : {}) } })
  return out
}

export const stepText = (st) => {
  const t = st.items.filter(i => i.k === 'message').flatMap(i => i.parts).filter(p => p.t !== 'refusal').map(p => p.text).join('')
  return t === '' ? undefined : t
}
const OUT_TYPES = ['input_file', 'input_image', 'input_text']
export const rWrap = r => wireContent(r, OUT_TYPES)

export const rModel = (sc) => {
  const history = typeof sc.input === 'string' ? [{ type: 'message', role: 'user', content: sc.input }] : json(sc.input)
  const steps = []
  const out = { requests: [], history, steps, prepares: [], stops: [], exec: [], posts: [], totalUsage: undefined, usage: undefined, used: [] }
  for (let n = 0; ; n++) {
    if (sc.prepare) out.prepares.push({ input: clone(history), model: sc.model, stepNumber: n, steps: clone(steps) })
    const p = sc.prepare ? preparedFor(sc, n, clone(history)) : {}
    out.requests.push({ input: json(p.input ?? history), model: p.model ?? sc.model, tool_choice: p.toolChoice ?? sc.toolChoice })
    const st = sc.script[n] ?? R_FALLBACK
    out.used.push(st)
    const usage = rNorm(st.usage)
    st.items.forEach((it, i) => history.push(wireItem(it, n, i, st.again)))
    const calls = st.items.map((it, i) => ({ it, id: callIdOf(it, n, i) })).filter(x => isCall(x.it)).map(({ it, id }) => ({ id, name: it.name, args: it.args }))
    const handed = calls.map(c => ({ args: c.args, toolCallId: c.id, toolCallType: 'function', toolName: c.name }))
    const finishReason = st.status === 'failed' ? 'error' : st.status === 'incomplete' ? 'length' : calls.length > 0 ? 'tool-calls' : 'stop'
    const step = { finishReason, text: stepText(st), toolCalls: handed, toolResults: [], usage }
    let stop = true
    out.usage = usage
    if (usage) {
      out.totalUsage = out.totalUsage ? { inputTokens: out.totalUsage.inputTokens + usage.inputTokens, outputTokens: out.totalUsage.outputTokens + usage.outputTokens, totalTokens: out.totalUsage.totalTokens + usage.totalTokens } : { ...usage }
    }
    if (st.status === 'completed') {
      const ctx = { input: clone(history), step: clone(step), steps: clone([...steps, step]) }
      stop = evalStop(sc.stop ?? { k: 'count', n: 1 }, ctx)
      out.stops.push({ ...ctx, r: stop })
      if (!stop && calls.length > 0) {
        const rs = calls.map(c => modelTool(c, sc.tools, sc.hooks, { wrap: rWrap }))
        step.toolCalls = rs.map(r => r.completionToolCall)
        step.toolResults = rs.map(r => r.completionToolResult)
        calls.forEach((c, i) => {
          if (rs[i].executed) out.exec.push({ tool: rs[i].completionToolCall.toolName, input: rs[i].input, toolCallId: c.id })
          history.push({ type: 'function_call_output', status: 'completed', call_id: c.id, output: rs[i].content })
        })
      }
    }
    steps.push(step)
    if (calls.length === 0 || stop) return out
  }
}
// outputs carry a generated id; everything else is compared
export const dropOutId = items => json(items).map((x) => {
  if (x?.type !== 'function_call_output' || x.status !== 'completed') return x
  const { id: _id, ...rest } = x
  return rest
})
