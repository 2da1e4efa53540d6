import { env } from '../lib/env.mjs'
import { cutsArb, eq, fc, frac, jsonReply, makeServer, mkThrown, ok, outcome, show, sseReply, sseText, thrown } from '../lib/kit.mjs'
import { endpointCase, makeEndpoints } from '../lib/endpoints.mjs'
import { buildOptions, chunkPlan, FALLBACK, newSeen, replyChunks, replyJSON, scenario } from '../lib/loop.mjs'
import { R_FALLBACK, rEvents, rScenario } from '../lib/rloop.mjs'
import { chatOutputs, observe } from '../lib/observe.mjs'

const reasonArb = () => thrown()
const abortAt = (ac, when, kind, mark) => {
  const go = () => { mark?.(); const r = mkThrown(kind); if (r === undefined) ac.abort(); else ac.abort(r) }
  if (when < 0) go()
  else env.at(when, go)
}
// a reply the call has let go of (its last event was read) is not waited for
const waiting = srv => srv.sent.some(r => !r.delivered && !r.cancelled)
// a responses call runs its tools at the reply's last event: the end of the stream behind it carries nothing
const TOOL_PHASE = ['preToolCall', 'postToolCall', 'execute', 'validate', 'onStepFinish']
const slowTool = { delay: fc.constantFrom(0, 2, 4, 9) }

export default ({ lib }) => {
  const X = lib.xsai
  const eps = makeEndpoints(lib)
  const by = Object.fromEntries(eps.map(e => [e.name, e]))
  const loopCase = sc => fc.record({ sc, when: fc.oneof({ weight: 1, arbitrary: fc.constant(-1) }, { weight: 12, arbitrary: frac(1.1) }), reason: reasonArb(), latency: fc.constantFrom(0, 3, 7), gap: fc.constantFrom(0, 1, 2), cuts: cutsArb(5), plans: fc.array(chunkPlan(), { minLength: 1, maxLength: 2 }) })
  const judge = async ({ c, start, reply, telemetry, streamed, C }, t) => {
    const seen = newSeen()
    const ac = new AbortController()
    const srv = makeServer((_, i) => reply(i))
    const at = { done: false, settled: false }
    const mark = () => { at.done = true; at.sent = srv.sent.length; at.exec = seen.exec.length; at.busy = seen.exec.some(e => e.end === undefined); at.pending = !at.busy && waiting(srv); at.live = !at.settled; at.asked = srv.log.length }
    abortAt(ac, c.when, c.reason, mark)
    const o = buildOptions(c.sc, C, seen, { fetch: srv.fetch, abortSignal: ac.signal, ...(telemetry ? { telemetry: {} } : {}) })
    let outs
    if (streamed) {
      const r = await start(o)
      const [streams, promises] = chatOutputs(r)
      const watch = outcome(r.steps).then(() => { at.settled = true })
      outs = await observe(streams, promises)
      await watch
    }
    else {
      const r = await outcome(start(o).finally(() => { at.settled = true }))
      outs = { result: r }
    }
    const list = Object.entries(outs).map(([n, x]) => [n, x.ok ?? (x.end === 'closed'), x.error])
    const okAll = list.every(x => x[1])
    const failAll = list.every(x => !x[1])
    ok(okAll || failAll, () => `outputs disagree about the outcome: ${show(list)}`)
    if (failAll) for (const [n, , e] of list) ok(ac.signal.aborted && e === ac.signal.reason, () => `${n} failed with something else than the abort reason: ${show(e)}`)
    await env.quiesce()
    if (!at.done) ok(false, 'the abort timer never fired')
    t.nontrivial(at.live)
    t.cls(c.when < 0 ? 'before' : at.pending ? 'network' : at.live ? 'other' : 'late')
    eq(srv.sent.length, at.sent, 'requests sent after the abort')
    eq(seen.exec.length, at.exec, 'tools started after the abort')
    // while tools run nothing is on the network, so the transport must not be asked again at all
    if (at.busy) { t.cls('tools-running'); eq(srv.log.length, at.asked, 'requests handed to the transport after an abort during tools') }
    if (c.when < 0 || (at.live && at.pending)) ok(failAll, () => `a call waiting on the network at the abort must fail with the reason: ${show(list, 500)}`)
    if (!at.live) ok(okAll, 'a call that was already finished must not fail')
    for (const q of srv.log) ok(q.signal === ac.signal, 'the transport must receive the caller\'s signal')
    for (const e of seen.exec) ok(e.signal === ac.signal, 'tools must receive the caller\'s signal')
  }
  const sse = (payloads, c) => sseReply(sseText(payloads), c.cuts, [c.gap], { latency: c.latency })
  const runAll = async (d, t) => {
    // the abort instant is a fraction of the undisturbed timeline, so that every phase is hit
    let span = 0
    if (d.c.when >= 0) {
      const from = env.now
      const srv = makeServer((_, i) => d.reply(i))
      const o = buildOptions(d.c.sc, d.C, newSeen(), { fetch: srv.fetch, ...(d.telemetry ? { telemetry: {} } : {}) })
      if (d.streamed) await observe(...chatOutputs(await d.start(o)))
      else await outcome(d.start(o))
      span = env.now - from
    }
    const when = d.c.when < 0 ? -1 : env.now + Math.round(d.c.when * span * 2) / 2
    await judge({ ...d, c: { ...d.c, when } }, t)
  }
  return {
    rule: 'A case is a client call with latencies, slow tools and chunk delays on a virtual clock, and an abort with a generated reason before it, at a generated instant of its timeline, or after it. Non-trivial: the abort strikes before the call has settled. Oracle: no request or tool starts after the abort, everything settles consistently, and what was waiting on the network fails with exactly the reason.',
    assumptions: ['a call aborted while only tools run may finish with what it has or fail with the reason'],
    subs: [
      { name: 'generateText', runs: 2500, arb: () => loopCase(scenario({ tool: slowTool })), check: (c, t) => runAll({ c, C: X, start: X.generateText, reply: i => jsonReply(replyJSON(c.sc.script[i] ?? FALLBACK, i), { latency: c.latency }) }, t) },
      { name: 'streamText', runs: 2500, arb: () => loopCase(scenario({ step: { parts: false }, tool: slowTool })), check: (c, t) => runAll({ c, C: X, streamed: true, start: X.streamText, reply: i => sse(replyChunks(c.sc.script[i] ?? FALLBACK, i, c.plans[i % c.plans.length]), c) }, t) },
      { name: 'responses', runs: 2000, arb: () => loopCase(rScenario({ tool: slowTool })), check: (c, t) => runAll({ c, C: { ...lib.chat, ...lib.responses }, streamed: true, start: lib.responses.responses, reply: i => sse(rEvents(c.sc.script[i] ?? R_FALLBACK, i), c) }, t) },
      { name: 'telemetry.generateText', runs: 1000, arb: () => loopCase(scenario({ tool: slowTool })), check: (c, t) => runAll({ c, C: X, telemetry: true, start: lib.telemetry.generateText, reply: i => jsonReply(replyJSON(c.sc.script[i] ?? FALLBACK, i), { latency: c.latency }) }, t) },
      { name: 'telemetry.streamText', runs: 1000, arb: () => loopCase(scenario({ step: { parts: false }, tool: slowTool })), check: (c, t) => runAll({ c, C: X, telemetry: true, streamed: true, start: lib.telemetry.streamText, reply: i => sse(replyChunks(c.sc.script[i] ?? FALLBACK, i, c.plans[i % c.plans.length]), c) }, t) },
      {
        // the caller aborts from within a callback, a hook, a tool or the transport, at the n-th time it runs
        name: 'from-callbacks', runs: 3000,
        arb: () => fc.constantFrom('generateText', 'streamText', 'responses', 'telemetry.generateText', 'telemetry.streamText').chain(name => fc.record({
          name: fc.constant(name), sc: name === 'responses' ? rScenario({ tool: slowTool }) : scenario({ tool: slowTool, ...(name.endsWith('streamText') ? { step: { parts: false } } : {}) }),
          where: fc.constantFrom('prepareStep', 'stopWhen', 'onStepFinish', ...(name.endsWith('generateText') ? [] : ['onEvent', 'onEvent']), 'preToolCall', 'postToolCall', 'execute', 'validate', 'transport'), nth: fc.nat({ max: 5 }),
          reason: thrown().map(r => r === 'null' ? 'error' : r), gap: fc.constantFrom(0, 1), cuts: cutsArb(3), plans: fc.array(chunkPlan(), { minLength: 1, maxLength: 2 }),
        })),
        check: async (c, t) => {
          const { name, sc, where, nth } = c
          const seen = newSeen()
          const ac = new AbortController()
          const streamed = !name.endsWith('generateText')
          const reply = i => name === 'responses' ? sse(rEvents(sc.script[i] ?? R_FALLBACK, i), { ...c, latency: 0 }) : streamed ? sse(replyChunks(sc.script[i] ?? FALLBACK, i, c.plans[i % c.plans.length]), { ...c, latency: 0 }) : jsonReply(replyJSON(sc.script[i] ?? FALLBACK, i))
          let calls = 0
          let at
          let over = false
          const srv = makeServer((_, i) => reply(i))
          const strike = () => {
            if (calls++ !== nth * (where === 'onEvent' ? 4 : 1)) return
            at = { sent: srv.sent.length, exec: seen.exec.length, pending: !(name === 'responses' && TOOL_PHASE.includes(where)) && waiting(srv), live: !over }
            const r = mkThrown(c.reason)
            if (r === undefined) ac.abort(); else ac.abort(r)
          }
          const o = buildOptions(sc, name === 'responses' ? { ...lib.chat, ...lib.responses } : X, seen, { abortSignal: ac.signal, ...(name.startsWith('telemetry') ? { telemetry: {} } : {}) })
          const before = (fn, extra) => (...a) => { strike(); return (fn ?? extra)?.(...a) }
          o.fetch = where === 'transport' ? (...a) => { strike(); return srv.fetch(...a) } : srv.fetch
          if (['prepareStep', 'onStepFinish', 'onEvent', 'preToolCall', 'postToolCall'].includes(where)) o[where] = before(o[where])
          if (where === 'stopWhen') o.stopWhen = before(o.stopWhen, X.stepCountAtLeast(1))
          if (where === 'validate') o.tools = o.tools?.map(x => ({ ...x, validate: before(x.validate, value => ({ value })) }))
          // the tool that aborts has started itself
          if (where === 'execute') o.tools = o.tools?.map(x => ({ ...x, execute: (...a) => { const r = x.execute(...a); strike(); return r } }))
          const start = { 'generateText': X.generateText, 'streamText': X.streamText, 'responses': lib.responses.responses, 'telemetry.generateText': lib.telemetry.generateText, 'telemetry.streamText': lib.telemetry.streamText }[name]
          let outs
          if (streamed) {
            const [streams, promises] = chatOutputs(await start(o))
            outs = await observe(streams, promises)
          }
          else outs = { result: await outcome(start(o)) }
          over = true
          await env.quiesce()
          t.nontrivial(at !== undefined); t.cls(at ? where : 'not-reached', at && name)
          const list = Object.entries(outs).map(([n, x]) => [n, x.ok ?? (x.end === 'closed'), x.error])
          ok(list.every(x => x[1] === list[0][1]), () => `outputs disagree about the outcome: ${show(list)}`)
          if (!at) return
          for (const [n, good, e] of list) ok(good || e === ac.signal.reason || lib.shared.XSAIError.isInstance(e), () => `${n} failed with something else than the abort reason: ${show(e)}`)
          eq(srv.sent.length, at.sent, `requests sent after an abort in ${where}`)
          eq(seen.exec.length, at.exec, `tools started after an abort in ${where}`)
          if (at.live && at.pending) ok(!list[0][1], () => `a reply was still arriving at the abort in ${where}, yet the call succeeded: ${show(list, 400)}`)
          if (where === 'prepareStep' || where === 'transport') ok(!list[0][1], () => `an abort in ${where}, before a request, must fail the call`)
        },
      },
      {
        name: 'endpoints', runs: 2500,
        arb: () => endpointCase(eps, () => true, { when: fc.integer({ min: -1, max: 14 }), reason: reasonArb(), latency: fc.constantFrom(0, 4, 8), gap: fc.constantFrom(0, 3) }),
        check: async (c, t) => {
          const ep = by[c.ep]
          const ac = new AbortController()
          let settled = false
          const srv = makeServer(() => {
            const r = ep.reply(c.spec)
            const chunks = r.chunks ?? [{ bytes: r.body }]
            return { ...r, body: undefined, chunks: [{ bytes: '' }, ...chunks].slice(chunks[0].bytes.length ? 1 : 0).map(x => ({ ...x, delay: c.gap })), latency: c.latency }
          })
          const at = {}
          abortAt(ac, c.when, c.reason, () => { at.sent = srv.sent.length; at.pending = !settled && waiting(srv); at.live = !settled })
          const o = await outcome(ep.run({ ...ep.options(c.spec), baseURL: 'https://h.example/v1', apiKey: 'k', fetch: srv.fetch, abortSignal: ac.signal }).finally(() => { settled = true }))
          await env.quiesce()
          t.nontrivial(at.live === true); t.cls(c.when < 0 ? 'before' : at.pending ? 'network' : at.live ? 'other' : 'late')
          eq(srv.sent.length, at.sent ?? srv.sent.length, `${c.ep}: requests after the abort`)
          if (c.when < 0 || at.pending) ok(!o.ok && o.error === ac.signal.reason, () => `${c.ep}: must fail with the abort reason, got ${show(o, 400)}`)
          else if (!at.live) ok(o.ok, () => `${c.ep}: finished before the abort but failed: ${show(o.error)}`)
          for (const q of srv.log) ok(q.signal === ac.signal, `${c.ep}: the transport must receive the caller's signal`)
        },
      },
      {
        // images given by address are fetched in a second round of requests
        name: 'image-downloads', runs: 600,
        arb: () => fc.record({ images: fc.array(fc.oneof(fc.constant('inline'), fc.record({ latency: fc.constantFrom(0, 2, 6), gap: fc.constantFrom(0, 2) })), { minLength: 1, maxLength: 4 }), latency: fc.constantFrom(0, 3), when: fc.integer({ min: -1, max: 14 }), reason: reasonArb() }),
        check: async (c, t) => {
          const ac = new AbortController()
          let settled = false
          const srv = makeServer((q) => {
            const at = /img-(\d+)/.exec(q.url)
            if (!at) return jsonReply({ created: 1, data: c.images.map((im, i) => im === 'inline' ? { b64_json: 'iVBORw0KGgo=' } : { url: `https://cdn.example/img-${i}` }) }, { latency: c.latency })
            const { latency, gap } = c.images[at[1]]
            return { headers: { 'content-type': 'image/png' }, chunks: [{ bytes: 'abc' }, { bytes: 'def', delay: gap }], latency }
          })
          const at = {}
          abortAt(ac, c.when < 0 ? -1 : env.now + c.when, c.reason, () => { at.sent = srv.sent.length; at.pending = !settled && waiting(srv); at.live = !settled })
          const o = await outcome(X.generateImage({ baseURL: 'https://h.example/v1', model: 'm', prompt: 'p', fetch: srv.fetch, abortSignal: ac.signal }).finally(() => { settled = true }))
          await env.quiesce()
          t.nontrivial(at.live === true && at.sent > 1); t.cls(c.when < 0 ? 'before' : at.pending ? at.sent > 1 ? 'download' : 'network' : at.live ? 'other' : 'late')
          eq(srv.sent.length, at.sent ?? srv.sent.length, 'requests after the abort')
          if (c.when < 0 || at.pending) ok(!o.ok && o.error === ac.signal.reason, () => `must fail with the abort reason, got ${show(o, 400)}`)
          else if (!at.live) ok(o.ok, () => `finished before the abort but failed: ${show(o.error)}`)
          for (const q of srv.log) ok(q.signal === ac.signal, 'the transport must receive the caller\'s signal')
        },
      },
    ],
  }
}
