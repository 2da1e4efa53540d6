import { env } from '../lib/env.mjs'
import { collect, cutsArb, enc, eq, fc, jsonReply, makeServer, mkThrown, ok, outcome, show, splitBytes, sseText, text, thrown } from '../lib/kit.mjs'
import { buildOptions, chunkPlan, FALLBACK, newSeen, replyChunks, replyJSON, scenario } from '../lib/loop.mjs'
import { CHAT_OUT, chatOutputs, modesFor, observe } from '../lib/observe.mjs'
import { makeTracing } from '../lib/spans.mjs'

const attrVal = () => fc.oneof(text(2), fc.integer(), fc.boolean(), fc.array(fc.string({ maxLength: 3 }), { maxLength: 2 }), fc.constant('SECRET-SETTING'))
export const teleArb = () => fc.oneof(
  fc.constant(undefined), fc.constant({}),
  fc.dictionary(fc.constantFrom('gen_ai.agent.name', 'user.id', 'gen_ai.request.model', 'x'), attrVal(), { maxKeys: 3, noNullPrototype: true }).map(attributes => ({ attributes })),
)
// errors are compared by what a caller can see of them
const err = e => e instanceof Error ? { name: e.name, message: e.message, code: e.code, reason: e.reason, status: e.statusCode, ctor: e.constructor.name } : { thrown: e }
const flat = x => x === undefined ? undefined : { ...x, error: x.ok === false || x.end === 'errored' ? err(x.error) : undefined }
const FAULTS = ['none', 'none', 'none', 'reject', 'status', 'malformed', 'break', 'empty', 'noChoices', 'abort', 'prepare', 'stop', 'onStepFinish', 'onStepFinishAsync', 'onEvent', 'onFinish', 'hookId']

// what happens at the same instant for different tool calls has no order
const byTime = (at, id, list) => list.map((x, i) => ({ x, i })).sort((p, q) => p.x[at] - q.x[at] || (p.x[id] < q.x[id] ? -1 : p.x[id] > q.x[id] ? 1 : p.i - q.i)).map(p => p.x)

// everything the outside can see of one run
const play = async ({ sc, plans, fault, cuts, delay, streamOptions }, mode, start, modes, extra) => {
  const seen = newSeen()
  const boom = mkThrown(fault.what)
  const t0 = env.now
  const k = fault.step
  const payload = i => mode === 'stream' ? replyChunks(sc.script[i] ?? FALLBACK, i, plans[i % plans.length]).map(p => JSON.stringify(p)) : [JSON.stringify(replyJSON(sc.script[i] ?? FALLBACK, i))]
  const srv = makeServer((_, i) => {
    const parts = payload(i)
    if (i === k) {
      switch (fault.kind) {
        case 'reject': return { reject: boom, latency: 1 }
        case 'status': return { status: 429, body: 'slow down' }
        case 'empty': return { status: 200, body: null }
        case 'noChoices': return mode === 'stream' ? { body: 'data: {"choices":[]}\n\ndata: [DONE]\n\n' } : jsonReply({ choices: [] })
        case 'malformed': case 'break': {
          const head = mode === 'stream' ? parts.slice(0, fault.at % (parts.length + 1)).map(p => ({ bytes: `data: ${p}\n\n` })) : [{ bytes: parts[0].slice(0, fault.at % parts[0].length) }]
          return { chunks: [...head, fault.kind === 'break' ? { error: boom, delay: 2 } : { bytes: mode === 'stream' ? 'data: {oops\n\n' : '{' }] }
        }
      }
    }
    const body = mode === 'stream' ? sseText(parts) : parts[0]
    return { latency: sc.latency, chunks: splitBytes(enc.encode(body), cuts).map(bytes => ({ bytes, delay })) }
  })
  const ac = new AbortController()
  if (fault.kind === 'abort') env.at(env.now + fault.at % 24, () => ac.abort(boom))
  const o = buildOptions(sc, extra.C, seen, { fetch: srv.fetch, abortSignal: ac.signal })
  if (fault.kind === 'prepare') { const inner = o.prepareStep; o.prepareStep = a => a.stepNumber === k ? Promise.reject(boom) : inner?.(a) }
  if (fault.kind === 'stop') { const inner = o.stopWhen ?? extra.C.stepCountAtLeast(1); o.stopWhen = (c) => { if (c.steps.length - 1 === k) throw boom; return inner(c) } }
  if (fault.kind === 'onStepFinish') { const inner = o.onStepFinish; o.onStepFinish = (s) => { inner(s); if (seen.stepFinish.length - 1 === k) throw boom } }
  if (fault.kind === 'onStepFinishAsync' && mode === 'generate') { const inner = o.onStepFinish; o.onStepFinish = async (s) => { inner(s); await env.sleep(1); if (seen.stepFinish.length - 1 === k) throw boom } }
  if (streamOptions !== undefined && mode === 'stream') o.streamOptions = structuredClone(streamOptions)
  if (fault.kind === 'hookId') o.preToolCall = c => ({ ...c, toolCallId: 'other' })
  if (mode === 'stream') {
    o.onEvent = (e) => { seen.events.push(structuredClone(e)); if (fault.kind === 'onEvent' && seen.events.length - 1 === fault.at) throw boom }
    o.onFinish = (s) => { seen.finish.push(structuredClone(s)); if (fault.kind === 'onFinish') throw boom }
  }
  if (extra.telemetry !== 'plain') o.telemetry = structuredClone(extra.telemetry)
  let outs
  let alike
  const started = await outcome((async () => start(o))())
  if (mode === 'stream' && started.ok) {
    const [streams, promises] = chatOutputs(started.value)
    outs = await observe(streams, promises, modes)
    const late = await observe(Object.fromEntries(Object.entries(streams).filter(([n, s]) => s && !outs[n])), promises)
    outs = { ...outs, ...late }
    alike = Object.keys(started.value).sort()
  }
  else { outs = { result: started } }
  await env.quiesce()
  return {
    boom: Object.values(outs).some(x => x?.error === boom),
    keys: alike,
    outs: Object.fromEntries(Object.entries(outs).map(([n, x]) => [n, flat(x)])),
    requests: srv.log.map(r => ({ url: r.url, method: r.method, headers: r.headers, body: r.json ?? r.text, signal: r.signal === ac.signal, at: r.at - t0 })),
    exec: byTime('start', 'toolCallId', seen.exec.map(({ signal, start: s, end, ...e }) => ({ ...e, signal: signal === ac.signal, start: s - t0, end: end === undefined ? undefined : end - t0 }))),
    hooks: byTime('at', 'id', seen.hooks.map(h => ({ ...h, at: h.at - t0 }))), prepares: seen.prepares, stops: seen.stops, stepFinish: seen.stepFinish, events: seen.events, finish: seen.finish,
  }
}

// circular values, cut at the repetition
const uncycle = (v, path = []) => {
  if (v === null || typeof v !== 'object' || !(Array.isArray(v) || Object.getPrototypeOf(v) === Object.prototype)) return v
  if (path.includes(v)) return '[circular]'
  const next = [...path, v]
  return Array.isArray(v) ? v.map(x => uncycle(x, next)) : Object.fromEntries(Object.entries(v).map(([k, x]) => [k, typeof x === 'function' ? 'function' : uncycle(x, next)]))
}
const KINDS = ['bigint', 'circular', 'badToJSON', 'undefined', 'symbol', 'date', 'map', 'plain']
const odd = (k) => {
  switch (k) {
    case 'bigint': return { n: 10n }
    case 'circular': { const o = { a: 1 }; o.self = o; return o }
    case 'badToJSON': return { toJSON() { throw new Error('no JSON') } }
    case 'undefined': return undefined
    case 'symbol': return { s: Symbol.for('x') }
    case 'date': return new Date(0)
    case 'map': return new Map([['a', 1]])
    default: return { a: 'b' }
  }
}

export default ({ lib }) => {
  const X = lib.xsai
  const T = lib.telemetry
  const tracing = makeTracing(lib)
  const compare = async (c, mode, plain, tele, modes, t) => {
    tracing.off()
    const a = await play(c, mode, plain, modes, { C: X, telemetry: 'plain' })
    if (c.sdk) tracing.on()
    const b = await play(c, mode, tele, modes, { C: X, telemetry: c.telemetry })
    tracing.off()
    t.nontrivial(a.requests.length > 1 || c.fault.kind !== 'none')
    t.cls(c.fault.kind, `requests=${Math.min(4, a.requests.length)}`, c.sdk && 'recorded')
    // an error overtakes what is still queued in a stream: how much was read by then is a matter of microtasks
    for (const [n, x] of Object.entries(a.outs)) {
      const y = b.outs[n]
      if (x?.end !== 'errored' || y?.end !== 'errored') continue
      const len = Math.min(x.chunks.length, y.chunks.length)
      x.chunks.length = y.chunks.length = len
    }
    for (const k of Object.keys(a)) eq(b[k], a[k], `telemetry changed ${k} (fault: ${c.fault.kind})`)
    ok(!JSON.stringify(b.requests).includes('SECRET-SETTING') || JSON.stringify(a.requests).includes('SECRET-SETTING'), () => `telemetry settings leave the process: ${show(b.requests)}`)
  }
  const faultArb = () => fc.record({ kind: fc.constantFrom(...FAULTS), step: fc.nat({ max: 3 }), at: fc.nat({ max: 40 }), what: thrown() })
  const rest = { telemetry: teleArb(), sdk: fc.boolean(), cuts: cutsArb(3), delay: fc.constantFrom(0, 1), streamOptions: fc.constantFrom(undefined, {}, { includeUsage: true }, { includeUsage: false }, { includeUsage: undefined }), fault: faultArb(), plans: fc.array(chunkPlan(), { minLength: 1, maxLength: 2 }) }
  return {
    rule: 'A case is one generated multi-step scenario with tools, hooks, validation, step preparation and at most one fault or abort, run twice - through the plain function and through its telemetry namesake with generated telemetry settings, with and without a registered tracer. Non-trivial: several requests or a fault. Oracle: both runs are compared in everything visible from outside (requests with their instants and headers, tool executions with instants and inputs, hook, stop, preparation and callback arguments, events, chunks, results, errors).',
    assumptions: ['generated identifiers are the only random values', 'the two runs see the same virtual clock'],
    subs: [
      { name: 'generateText', runs: 2000, arb: () => fc.record({ sc: scenario(), ...rest }), check: (c, t) => compare(c, 'generate', X.generateText, T.generateText, {}, t) },
      { name: 'streamText', runs: 2000, arb: () => fc.record({ sc: scenario({ step: { parts: false } }), modes: modesFor(CHAT_OUT), ...rest }), check: (c, t) => compare(c, 'stream', X.streamText, T.streamText, c.modes, t) },
      {
        name: 'embeddings', runs: 800,
        arb: () => fc.record({ many: fc.boolean(), what: thrown(), usage: fc.constantFrom({ prompt_tokens: 3, total_tokens: 3 }, { prompt_tokens: 0, total_tokens: 0 }, undefined, null, {}), fault: fc.constantFrom('none', 'none', 'reject', 'status', 'malformed'), dims: fc.option(fc.nat({ max: 9 }), { nil: undefined }), input: fc.array(text(2), { minLength: 1, maxLength: 3 }), telemetry: teleArb(), sdk: fc.boolean() }),
        check: async (c, t) => {
          t.nontrivial(); t.cls(c.fault, c.usage ? 'usage' : 'no-usage')
          const one = async (fn, tele) => {
            const boom = mkThrown(c.what)
            const srv = makeServer(() => c.fault === 'reject' ? { reject: boom } : c.fault === 'status' ? { status: 500, body: 'x' } : c.fault === 'malformed' ? { body: '{' } : jsonReply({ data: c.input.map((_, index) => ({ index, embedding: [index, 1] })), usage: c.usage }))
            const o = { baseURL: 'https://h.example/v1', apiKey: 'k', model: 'e', input: c.many ? [...c.input] : c.input[0], dimensions: c.dims, fetch: srv.fetch, ...tele }
            const r = await outcome((async () => fn(o))())
            return { r: flat(r), boom: r.error === boom, requests: srv.log.map(q => ({ url: q.url, headers: q.headers, body: q.json })) }
          }
          tracing.off()
          const a = await one(c.many ? X.embedMany : X.embed, {})
          if (c.sdk) tracing.on()
          const b = await one(c.many ? T.embedMany : T.embed, { telemetry: c.telemetry })
          tracing.off()
          eq(b, a, 'telemetry changed the embedding call')
        },
      },
      {
        // values JSON cannot express, and tools that are class instances
        name: 'odd-tools', runs: 1200,
        arb: () => fc.record({ stream: fc.boolean(), input: fc.constantFrom(...KINDS), result: fc.constantFrom(...KINDS), post: fc.boolean(), klass: fc.constantFrom('', 'own', 'private'), reject: fc.boolean(), async: fc.boolean(), telemetry: teleArb(), sdk: fc.boolean() }),
        check: async (c, t) => {
          t.nontrivial(c.input !== 'plain' || c.result !== 'plain' || c.klass !== '')
          t.cls(`input:${c.input}`, `result:${c.result}`, c.klass && `class:${c.klass}`)
          const one = async (plain) => {
            const log = []
            const validate = () => c.reject ? { issues: [{ message: 'no' }] } : { value: odd(c.input) }
            const execute = (i) => { log.push(i); const r = odd(c.result); return c.async ? Promise.resolve(r) : r }
            class Weather {
              constructor() { this.type = 'function'; this.function = { name: 'weather', parameters: { type: 'object' } }; this.unit = 'C' }
              validate() { log.push(this.unit); return validate() }
              execute(i) { log.push(this.unit); return execute(i) }
            }
            // state that only the instance itself reaches
            class Private {
              type = 'function'
              function = { name: 'weather', parameters: { type: 'object' } }
              #unit = 'F'
              #note() { log.push(this.#unit) }
              validate() { this.#note(); return validate() }
              execute(i) { this.#note(); return execute(i) }
            }
            const tool = c.klass === 'private' ? new Private() : c.klass ? new Weather() : { type: 'function', function: { name: 'weather', parameters: { type: 'object' } }, validate, execute }
            const st = (i, calls) => ({ text: `t${i}`, parts: null, reasoning: null, calls, finish: calls.length ? 'tool_calls' : 'stop', usage: { p: 1, c: 1, extra: 0 } })
            const script = [st(0, [{ name: 'weather', args: '{"a":1}' }]), st(1, [])]
            const plan = { textCuts: [], reasonCuts: [], argCuts: [], order: [0], usage: 'final', stride: 1, base: 0, firstArgs: 'piece' }
            const srv = makeServer((_, i) => c.stream ? { body: sseText(replyChunks(script[i], i, plan)) } : jsonReply(replyJSON(script[i], i)))
            const o = { baseURL: 'https://h.example/v1', apiKey: 'k', model: 'm', messages: [{ role: 'user', content: 'q' }], tools: [tool], stopWhen: X.stepCountAtLeast(3), fetch: srv.fetch, ...(c.post ? { postToolCall: r => { log.push(r.isError, r.result instanceof Object, r.args instanceof Object); return { ...r, args: {}, result: r.isError ? r.result : 'fine' } } } : {}), ...(plain ? {} : { telemetry: c.telemetry }) }
            const L = plain ? X : T
            const r = c.stream
              ? await (async () => { const s = L.streamText(o); const ev = await collect(s.eventStream); return { ev: flat(ev), steps: flat(await outcome(s.steps)), messages: flat(await outcome(s.messages)) } })()
              : flat(await outcome((async () => L.generateText(o))()))
            return { r, log, requests: srv.log.map(q => q.json) }
          }
          tracing.off()
          const a = await one(true)
          if (c.sdk) tracing.on()
          const b = await one(false)
          tracing.off()
          eq(uncycle(b), uncycle(a), 'telemetry changed a call with unusual tool values')
        },
      },
      {
        name: 'exports', runs: 1, single: true,
        arb: () => fc.constant(null),
        check: async (_, t) => {
          t.nontrivial()
          const own = ['embed', 'embedMany', 'generateText', 'streamText']
          for (const k of Object.keys(X)) ok(k in T && (own.includes(k) ? typeof T[k] === 'function' && T[k] !== X[k] : T[k] === X[k]), `export ${k} of xsai through the telemetry package`)
        },
      },
    ],
  }
}
