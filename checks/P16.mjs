import { collect, cutsArb, eq, fc, jsonReply, makeServer, ok, outcome, show, sseReply, sseText } from '../lib/kit.mjs'
import { objectSchema } from '../lib/endpoints.mjs'
import { buildOptions, callId, newSeen } from '../lib/loop.mjs'
import { rEvents } from '../lib/rloop.mjs'

// usage of one reply: null = the server reports none; zeros, repeats and totals that are not the sum are all legal
const usage = () => fc.record({ p: fc.constantFrom(0, 0, 1, 7, 900, 123456, 123456, 2 ** 31 - 1, 2 ** 40), c: fc.constantFrom(0, 1, 5, 4096, 4096, 2 ** 32), extra: fc.constantFrom(0, 0, 3, -1) })
const placement = () => fc.constantFrom('final', 'separate', 'repeat', 'growing', 'first', 'every', 'null-first', 'null-last', 'running', 'running', 'trailing', 'trailing-blank')
const step = () => fc.record({ u: fc.option(usage(), { nil: null, freq: 3 }), at: placement(), text: fc.constantFrom('', 'a', 'hello world'), calls: fc.integer({ min: 1, max: 2 }), close: fc.constantFrom('own', 'own', 'last', 'none') })
const norm = u => ({ inputTokens: u.p, outputTokens: u.c, totalTokens: u.p + u.c + u.extra })
const wire = u => ({ prompt_tokens: u.p, completion_tokens: u.c, total_tokens: u.p + u.c + u.extra })

const calls = (s, n, last) => last ? [] : Array.from({ length: s.calls }, (_, i) => ({ id: callId(n, i), type: 'function', function: { name: 'calc', arguments: '{"a":1}' } }))
const whole = (s, n, last) => ({ choices: [{ index: 0, finish_reason: last ? 'stop' : 'tool_calls', message: { role: 'assistant', content: s.text, ...(last ? {} : { tool_calls: calls(s, n, last) }) } }], ...(s.u ? { usage: wire(s.u) } : s.at.startsWith('null') ? { usage: null } : {}) })
const chunks = (s, n, last) => {
  const mk = (delta, fin = null) => ({ id: 'c', choices: [{ index: 0, delta, finish_reason: fin }] })
  const out = [mk({ role: 'assistant', content: '' }), ...[...s.text].map(content => mk({ content })), ...calls(s, n, last).map((c, index) => mk({ tool_calls: [{ index, ...c }] })), ...(s.close === 'own' ? [mk({}, last ? 'stop' : 'tool_calls')] : [])]
  if (s.close === 'last') out.at(-1).choices[0].finish_reason = last ? 'stop' : 'tool_calls'
  if (s.u === null) {
    if (s.at === 'null-first' || s.at === 'null-last') for (const c of out) c.usage = null
    return out
  }
  const u = wire(s.u)
  const grow = i => ({ prompt_tokens: u.prompt_tokens, completion_tokens: Math.min(i, u.completion_tokens), total_tokens: u.prompt_tokens + Math.min(i, u.completion_tokens) })
  const tail = { id: 'c', choices: [], usage: u }
  switch (s.at) {
    case 'final': out.at(-1).usage = u; return out
    case 'first': out[0].usage = u; return out
    case 'every': for (const c of out) c.usage = u; return out
    case 'repeat': out.at(-1).usage = u; return [...out, tail]
    case 'growing': out.forEach((c, i) => { c.usage = grow(i) }); return [...out, tail]
    case 'running': out.forEach((c, i) => { c.usage = grow(i) }); out.at(-1).usage = u; return out
    case 'null-first': for (const c of out) c.usage = null; return [...out, tail]
    case 'null-last': out.at(-1).usage = u; return [...out, { id: 'c', choices: [], usage: null }]
    // after the finish, on a chunk that has a choice
    case 'trailing': return [...out, { ...mk({}), usage: u }]
    case 'trailing-blank': return [...out, { ...mk({ role: 'assistant', content: '' }), usage: u }]
    default: return [...out, tail]
  }
}
const rStepOf = (s, n, last, status) => ({ items: [...(s.text ? [{ k: 'message', parts: [{ t: 'output_text', text: s.text }] }] : []), ...Array.from({ length: last ? 0 : s.calls }, () => ({ k: 'call', name: 'calc', args: '{"a":1}' }))], status, usage: s.u, cuts: [], noise: n % 2 === 0 })

const MODES = ['generateText', 'streamText', 'telemetry.generateText', 'telemetry.streamText', 'responses', 'generateObject', 'streamObject']

export default ({ lib }) => {
  const X = lib.xsai
  const sub = how => ({
    name: how.replace('.', '-'), runs: how.includes('Object') ? 500 : 1500,
    arb: () => fc.record({ steps: fc.array(step(), { minLength: 1, maxLength: how.includes('Object') ? 1 : 5 }), stopAt: fc.option(fc.integer({ min: 1, max: 4 }), { nil: null, freq: 3 }), cuts: cutsArb(4), status: how === 'responses' ? fc.constantFrom('completed', 'completed', 'incomplete', 'failed') : fc.constant('completed') }),
    check: async (c, t) => {
      const gen = how.endsWith('generateText') || how === 'generateObject'
      const obj = how.includes('Object')
      const script = c.steps.map(s => ({ ...s, text: obj ? '{"a":1}' : s.text }))
      const n = Math.min(script.length, c.stopAt ?? Infinity)
      const ran = script.slice(0, n)
      const last = i => i === script.length - 1
      const srv = makeServer((_, i) => {
        const s = script[Math.min(i, script.length - 1)]
        return how === 'responses' ? sseReply(sseText(rEvents(rStepOf(s, i, last(i), i === n - 1 ? c.status : 'completed'), i)), c.cuts) : gen ? jsonReply(whole(s, i, last(i))) : sseReply(sseText(chunks(s, i, last(i))), c.cuts)
      })
      const seen = newSeen()
      const sc = { model: 'm', messages: how === 'responses' ? undefined : [{ role: 'user', content: 'q' }], input: 'q', tools: obj ? undefined : [{ name: 'calc', kind: 'echo', sync: true, delay: 0, validate: 'none' }], stop: { k: 'count', n: c.stopAt ?? 99 }, script: [] }
      const finish = []
      const o = buildOptions(sc, { ...lib.chat, ...X }, seen, { fetch: srv.fetch, ...(how.startsWith('telemetry') ? { telemetry: {} } : {}), ...(obj ? { schema: objectSchema } : {}), onFinish: (s) => { finish.push(s) } })
      const [ns, fn] = how.includes('.') ? ['telemetry', how.split('.')[1]] : [how === 'responses' ? 'responses' : 'xsai', how]
      const r = await outcome((async () => {
        const x = await lib[ns][fn](o)
        const ev = x.eventStream ? await collect(x.eventStream) : undefined
        return { steps: await x.steps, usage: await x.usage, totalUsage: await x.totalUsage, ev }
      })())
      ok(r.ok, () => `${how} failed: ${show(r.error)}`)
      eq(srv.log.length, n, `${how}: number of requests`)
      const each = ran.map(s => s.u === null ? undefined : norm(s.u))
      const reported = each.filter(Boolean)
      const total = reported.length === 0 ? undefined : reported.reduce((a, b) => ({ inputTokens: a.inputTokens + b.inputTokens, outputTokens: a.outputTokens + b.outputTokens, totalTokens: a.totalTokens + b.totalTokens }))
      t.nontrivial(n >= 2 || obj)
      t.cls(`steps=${n}`, c.status !== 'completed' && c.status, reported.length === 0 && 'none', reported.length < n && reported.length > 0 && 'partly', each[n - 1] === undefined && reported.length > 0 && 'last-missing')
      eq(r.value.steps.map(s => s.usage), each, `${how}: usage of each step`)
      eq(r.value.totalUsage, total, `${how}: total usage`)
      eq(r.value.usage, each[n - 1], `${how}: usage`)
      if (!how.includes('Object')) eq(seen.stepFinish.map(s => s.usage), each, `${how}: usage given to the step callbacks`)
      if (finish.length > 0) eq(finish[0].usage, each[n - 1], `${how}: usage given to the finish callback`)
      if (r.value.ev) eq(r.value.ev.chunks.filter(e => e.type === 'step.done').map(e => e.usage), each, `${how}: usage in the step events`)
      if (seen.stops.length > 0 && c.status === 'completed') eq(seen.stops.map(s => s.steps.map(x => x.usage)), each.map((_, i) => each.slice(0, i + 1)), `${how}: usage seen by the stop condition`)
    },
  })
  return {
    rule: 'A case is a run of 1-5 steps whose replies report generated token counts (zeros and totals that are not the sum included) or none, at a generated place of the stream (first, last, own, repeated, growing, every chunk, with null usage around); a responses run may end incomplete or failed. Non-trivial: at least two steps, or structured output. Oracle: per-step usage and field-wise sum recomputed from the script, on the result, steps, events, callbacks and stop condition.',
    subs: MODES.map(sub),
  }
}
