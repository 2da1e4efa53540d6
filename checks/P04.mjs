import { env } from '../lib/env.mjs'
import { clone, cutsArb, deepFreeze, enc, eq, fc, json, jsonReply, makeServer, ok, outcome, show, sseReply, sseText } from '../lib/kit.mjs'
import { endpointCase, makeEndpoints } from '../lib/endpoints.mjs'
import { buildOptions, chunkPlan, dropIndex, FALLBACK, newSeen, replyChunks, replyJSON, scenario } from '../lib/loop.mjs'
import { chatOutputs, observe } from '../lib/observe.mjs'
import { makeStreamKinds } from '../lib/streams.mjs'
import { dropOutId, R_FALLBACK, rEvents, rScenario } from '../lib/rloop.mjs'

const data = o => clone(Object.fromEntries(Object.entries(o).filter(([k, v]) => typeof v !== 'function' && !['tools', 'fetch', 'abortSignal', 'schema', 'file', 'headers', 'baseURL', 'telemetry'].includes(k))))
const toolData = o => o.tools?.map(t => [json(t), Object.keys(t).sort(), t.execute, t.validate])
const rest = o => ({ h: o.headers instanceof Headers ? [...o.headers.entries()] : o.headers && { ...o.headers }, url: String(o.baseURL), keys: Object.keys(o).sort(), schema: o.schema && !('~standard' in o.schema) ? json(o.schema) : undefined })

export default ({ lib }) => {
  const X = lib.xsai
  const eps = makeEndpoints(lib)
  const by = Object.fromEntries(eps.map(e => [e.name, e]))
  const kinds = makeStreamKinds(lib)
  const noIds = v => ({ ...v, requests: v.requests.map(q => Array.isArray(q?.input) ? { ...q, input: dropOutId(q.input) } : q) })
  // everything a caller can see of one finished call, stripped of generated ids
  const view = async (how, o) => {
    if (how.endsWith('generateText')) return outcome((how.startsWith('telemetry') ? lib.telemetry : X).generateText(o)).then(r => r.ok ? { ok: true, value: json(r.value) } : { ok: false, error: `${r.error}` })
    const r = how === 'responses' ? lib.responses.responses(o) : await (how.startsWith('telemetry') ? lib.telemetry : X).streamText(o)
    const got = await observe(...chatOutputs(r))
    return json(Object.fromEntries(Object.entries(got).map(([k, x]) => [k, x.ok === undefined ? [x.end, `${x.error ?? ''}`, x.chunks] : [x.ok, x.ok ? k === 'messages' ? dropIndex(x.value) : k === 'input' ? dropOutId(x.value) : x.value : `${x.error}`]])))
  }
  const stepOf = q => (q.messages ?? q.input).filter(m => typeof m.tag === 'number').length
  // a reply is chosen from the request alone: how many assistant turns the conversation holds beyond the caller's own
  const turns = (sc, how, q) => how === 'responses'
    ? new Set(json(q.json.input).map(x => /^(?:msg|rs|fc|cmp|v)_(\d+)_/.exec(x?.id ?? '')?.[1]).filter(x => x !== undefined)).size
    : q.json.messages.filter(m => m.role === 'assistant').length - sc.messages.filter(m => m.role === 'assistant').length
  const replyFor = (c, how, latencies) => {
    let k = 0
    return (q) => {
      const n = turns(c.sc, how, q)
      const latency = latencies[k++ % latencies.length]
      if (how === 'responses') return sseReply(sseText(rEvents(c.sc.script[n] ?? R_FALLBACK, n)), c.cuts, [c.gap], { latency })
      if (how.endsWith('streamText')) return sseReply(sseText(replyChunks(c.sc.script[n] ?? FALLBACK, n, c.plans[0])), c.cuts, [c.gap], { latency })
      return jsonReply(replyJSON(c.sc.script[n] ?? FALLBACK, n), { latency })
    }
  }
  const telemetryOf = how => how.startsWith('telemetry') ? { telemetry: { attributes: { a: 1 } } } : {}
  const scFor = how => how === 'responses' ? rScenario({ prepare: fc.constant(undefined) }) : scenario({ step: { parts: false }, prepare: fc.constant(undefined) })
  const nonEmpty = sc => ({ ...sc, script: sc.script.map(s => s.items ? { ...s, again: false } : s).map(s => s.items && s.items.length === 0 ? { ...s, items: [{ k: 'reasoning', text: 'x', form: 'summary', enc: false }] } : s) })
  const cas = how => fc.record({ sc: scFor(how).map(nonEmpty), plans: fc.array(chunkPlan(), { minLength: 1, maxLength: 1 }), cuts: cutsArb(3), gap: fc.constantFrom(0, 1), headers: fc.constantFrom(undefined, { 'X-A': '1' }, 'Headers'), url: fc.boolean(), n: fc.integer({ min: 2, max: 4 }), stagger: fc.array(fc.constantFrom(0, 0, 1, 3, 7), { minLength: 1, maxLength: 4 }), latencies: fc.array(fc.constantFrom(0, 0, 1, 2, 5), { minLength: 1, maxLength: 6 }) })
  const opts = (c, how, seen, fetch, tag) => buildOptions(c.sc, { ...lib.chat, ...X }, seen, {
    fetch, ...telemetryOf(how),
    headers: c.headers === 'Headers' ? new Headers({ 'X-A': '1' }) : c.headers,
    baseURL: c.url ? new URL('https://h.example/v1/') : 'https://h.example/v1',
    ...tag,
  })
  const reqs = (log, how) => log.map(q => JSON.stringify([q.url, q.method, q.headers, q.json.input ? dropOutId(q.json.input) : dropIndex(q.json.messages), { ...q.json, input: 0, messages: 0 }])).sort()

  const MODES = ['generateText', 'streamText', 'responses', 'telemetry.generateText', 'telemetry.streamText']
  const runs = how => how.includes('.') ? 600 : 1100
  return {
    rule: 'A case is a client call (every endpoint; multi-step conversations with tools and hooks for the generation ones) whose options are deeply frozen or fingerprinted, or 2-4 overlapping calls that share one options object with generated start offsets and latencies. Non-trivial: a multi-request conversation, or a call with nested options. Oracle: no mutation (frozen writes throw, fingerprints agree), and every overlapping call shows the same requests and results as one running alone.',
    subs: [
      {
        name: 'endpoints', runs: 3000,
        arb: () => endpointCase(eps, () => true, { frozen: fc.boolean(), headers: fc.constantFrom(undefined, { 'X-A': '1', 'content-type': 'application/json' }, 'Headers'), url: fc.boolean(), times: fc.integer({ min: 1, max: 3 }) }),
        check: async (c, t) => {
          const ep = by[c.ep]
          const srv = makeServer(() => ep.reply(c.spec))
          const o = { ...ep.options(c.spec), apiKey: 'k', fetch: srv.fetch, headers: c.headers === 'Headers' ? new Headers({ 'X-A': '1' }) : c.headers, baseURL: c.url ? new URL('https://h.example/v1/') : 'https://h.example/v1' }
          const before = [data(o), toolData(o), rest(o)]
          if (c.frozen) deepFreeze(o)
          t.nontrivial(Object.keys(c.spec).length > 1); t.cls(c.ep)
          for (let i = 0; i < c.times; i++) {
            const r = await outcome(ep.run(o))
            ok(r.ok, () => `${c.ep}: call ${i} failed with ${c.frozen ? 'frozen' : 'plain'} options: ${show(r.error)}`)
            eq([data(o), toolData(o), rest(o)], before, `${c.ep}: the caller's options after call ${i}`)
          }
          for (const q of srv.log) eq([q.url, q.method, q.headers, q.json ?? q.form?.filter(f => typeof f[1] === 'string')], [srv.log[0].url, srv.log[0].method, srv.log[0].headers, srv.log[0].json ?? srv.log[0].form?.filter(f => typeof f[1] === 'string')], `${c.ep}: a repeated call must repeat the request`)
        },
      },
      ...MODES.map(how => ({
        name: `frozen-${how.replace('.', '-')}`, runs: runs(how), arb: () => cas(how),
        check: async (c, t) => {
          const s1 = makeServer(replyFor(c, how, [0]))
          const plain = opts(c, how, newSeen(), s1.fetch)
          const print = [data(plain), toolData(plain), rest(plain)]
          const want = await view(how, plain)
          eq([data(plain), toolData(plain), rest(plain)], print, `${how}: the caller's options after the call`)
          const s2 = makeServer(replyFor(c, how, [0]))
          const frozen = deepFreeze(opts(c, how, newSeen(), s2.fetch))
          const got = await view(how, frozen)
          t.nontrivial(s1.log.length > 1)
          eq(got, want, `${how}: result with deeply frozen options`)
          eq(reqs(s2.log, how), reqs(s1.log, how), `${how}: requests with deeply frozen options`)
        },
      })),
      ...MODES.map(how => ({
        name: `overlap-${how.replace('.', '-')}`, runs: runs(how), arb: () => cas(how),
        check: async (c, t) => {
          const s1 = makeServer(replyFor(c, how, [0]))
          const want = await view(how, opts(c, how, newSeen(), s1.fetch))
          const s2 = makeServer(replyFor(c, how, c.latencies), { limit: 400 })
          const seen = newSeen()
          const shared = opts(c, how, seen, s2.fetch)
          const all = await Promise.all(Array.from({ length: c.n }, async (_, i) => {
            const d = c.stagger[i % c.stagger.length] * i
            if (d) await env.sleep(d)
            return view(how, shared)
          }))
          t.nontrivial(s1.log.length > 1)
          t.cls(`calls=${c.n}`)
          all.forEach((v, i) => eq(v, want, `${how}: result of overlapping call ${i}`))
          eq(reqs(s2.log, how), [].concat(...Array.from({ length: c.n }, () => reqs(s1.log, how))).sort(), `${how}: requests of ${c.n} overlapping calls`)
        },
      })),
      {
        // streams that arrive at the same time, in pieces that end inside characters, lines and events
        name: 'interleaved', runs: 1500,
        arb: () => fc.constantFrom(...Object.keys(kinds)).chain(name => fc.record({ name: fc.constant(name), cs: fc.array(kinds[name].gen(), { minLength: 2, maxLength: 3 }), every: fc.array(fc.integer({ min: 1, max: 40 }), { minLength: 1, maxLength: 4 }), delays: fc.array(fc.constantFrom(0, 1, 2), { minLength: 1, maxLength: 3 }), stagger: fc.array(fc.constantFrom(0, 0, 1, 3), { minLength: 3, maxLength: 3 }) })),
        check: async ({ name, cs, every, delays, stagger }, t) => {
          const k = kinds[name]
          const serve = c => makeServer((_, i) => {
            const bytes = enc.encode(sseText(k.events(clone(c), i)))
            const chunks = []
            for (let p = 0, j = 0; p < bytes.length; j++) { const n = every[j % every.length]; chunks.push({ bytes: bytes.slice(p, p + n), delay: j < 60 ? delays[j % delays.length] : 0 }); p += n }
            return { status: 200, headers: { 'content-type': 'text/event-stream' }, chunks }
          })
          const run = async (c) => {
            const srv = serve(c)
            const h = await k.start(clone(c), srv.fetch)
            return { got: json(Object.fromEntries(Object.entries(await observe(h.streams, h.promises)).map(([n, x]) => [n, x.ok === undefined ? [x.end, `${x.error ?? ''}`, x.chunks] : [x.ok, x.ok ? x.value : `${x.error}`]]))), requests: srv.log.map(q => q.json ?? q.url) }
          }
          const alone = []
          for (const c of cs) alone.push(await run(c))
          const all = await Promise.all(cs.map(async (c, i) => { if (stagger[i]) await env.sleep(stagger[i]); return run(c) }))
          t.nontrivial(); t.cls(name)
          all.forEach((v, i) => eq(noIds(v), noIds(alone[i]), `${name}: stream ${i} while others arrive`))
        },
      },
      {
        // options are the caller's between calls: the next call uses them as they are then
        name: 'between', runs: 1500,
        arb: () => fc.constantFrom(...MODES).chain(how => fc.record({
          how: fc.constant(how), c: cas(how), then: fc.array(fc.constantFrom('tool+', 'tool-', 'describe', 'execute', 'header', 'message', 'content', 'model', 'key', 'nested'), { minLength: 1, maxLength: 3 }), async: fc.boolean(),
        })),
        check: async ({ how, c, then }, t) => {
          t.cls(how, ...new Set(then)); t.nontrivial()
          const make = (seen, fetch) => {
            const o = opts(c, how, seen, fetch)
            return { ...o, tools: o.tools ?? [], metadata: { a: { b: 1 } }, headers: { 'X-A': '1' } }
          }
          const change = (o, k) => {
            const list = o.messages ?? (Array.isArray(o.input) ? o.input : undefined)
            switch (k) {
              case 'tool+': o.tools.push({ type: 'function', function: { name: 'late', description: 'came later', parameters: { type: 'object', properties: {} } }, execute: () => 'late' }); break
              case 'tool-': o.tools.pop(); break
              case 'describe': for (const x of o.tools) x.function.description = 'now different'; break
              case 'execute': for (const x of o.tools) { x.execute = () => 'other'; delete x.validate } break
              case 'header': o.headers['X-B'] = '2'; break
              case 'message': list?.push({ role: 'user', content: 'one more' }); break
              case 'content': if (list?.[0]) list[0].content = 'changed'; break
              case 'model': o.model = 'm-later'; break
              case 'key': o.apiKey = 'another'; break
              case 'nested': o.metadata.a.b = 2; break
            }
          }
          // one options object, used and changed and used again; against fresh ones that had the change from the start
          const cc = { ...c, sc: { ...c.sc, messages: clone(c.sc.messages), input: clone(c.sc.input) } }
          let srv = makeServer(replyFor(c, how, [0]))
          const o = make(newSeen(), (...a) => srv.fetch(...a))
          if (o.messages) o.messages = clone(o.messages)
          if (o.input) o.input = clone(o.input)
          for (const k of [undefined, ...then]) {
            if (k) change(o, k)
            srv = makeServer(replyFor({ ...cc, sc: { ...cc.sc, messages: o.messages ?? cc.sc.messages } }, how, [0]))
            const got = await view(how, o)
            const requests = reqs(srv.log, how)
            srv = makeServer(replyFor({ ...cc, sc: { ...cc.sc, messages: o.messages ?? cc.sc.messages } }, how, [0]))
            const fresh = { ...o, tools: o.tools.map(x => ({ ...x, function: { ...x.function } })), headers: { ...o.headers }, metadata: clone(o.metadata), ...(o.messages ? { messages: clone(o.messages) } : {}), ...(o.input ? { input: clone(o.input) } : {}) }
            const want = await view(how, fresh)
            eq(got, want, `${how}: result after the options changed (${k})`)
            eq(requests, reqs(srv.log, how), `${how}: requests after the options changed (${k})`)
          }
        },
      },
      {
        // what a call returned is the caller's to change: later steps and other calls do not look at it
        name: 'results', runs: 800,
        arb: () => cas('generateText'),
        check: async (c, t) => {
          const srv = makeServer(replyFor(c, 'generateText', [0]))
          const o = opts(c, 'generateText', newSeen(), srv.fetch)
          const a = await X.generateText(o)
          const first = json(a)
          t.nontrivial(srv.log.length > 1)
          for (const m of a.messages) m.content = 'CHANGED'
          a.messages.length = 0
          a.steps.length = 0
          eq(json(await X.generateText(o)), first, 'a second call after the first result was modified')
        },
      },
    ],
  }
}
