import { clone, eq, fc, frac, makeServer, mkThrown, ok, show, splitText, text1, thrown } from '../lib/kit.mjs'
import { env } from '../lib/env.mjs'
import { modesFor, observe } from '../lib/observe.mjs'
import { makeStreamKinds } from '../lib/streams.mjs'

const NAMES = ['streamText', 'telemetryStreamText', 'streamObject', 'responses', 'streamTranscription']
const tidy = r => r === undefined ? undefined : 'ok' in r ? { ok: r.ok, v: r.ok ? r.value : r.error } : { end: r.end, chunks: r.chunks, e: r.error }
const err = e => `${e?.name}: ${e?.message}`

// what one output may show under a plan, given what it shows when everything is read at once
const compare = (name, out, md, got, want) => {
  const where = `${name}.${out} (${md.m})`
  if (md.m === 'never' || (md.m === 'cancel' && got === undefined)) return
  if ('ok' in want) {
    ok(got.ok === want.ok, () => `${where}: ${got.ok ? 'resolved' : `rejected with ${err(got.error)}`} instead of ${want.ok ? 'a value' : `the failure ${err(want.error)}`}`)
    if (want.ok) eq(got.value, want.value, where)
    else ok(err(got.error) === err(want.error), () => `${where}: rejected with ${err(got.error)} instead of ${err(want.error)}`)
    return
  }
  if (md.m === 'cancel') {
    eq(got.chunks, want.chunks.slice(0, got.chunks.length), `${where}: the pieces before it was cancelled`)
    if (want.end === 'closed') ok(got.end !== 'errored', () => `${where}: cancelling failed: ${show(got.error)}`)
    return
  }
  eq(got.end, want.end, `${where}: end`)
  if (want.end === 'errored') ok(err(got.error) === err(want.error), () => `${where}: failed with ${err(got.error)} instead of ${err(want.error)}`)
  else eq(got.chunks, want.chunks, where)
}

export default ({ lib }) => {
  const kinds = makeStreamKinds(lib)
  const X = lib.xsai
  const boom = new Error('BOOM')
  const serve = (k, c, { delays, fault }) => makeServer((_, i) => {
    const ev = k.events(clone(c), i)
    const broken = fault && i === fault.request
    const list = broken ? ev.slice(0, fault.pos % (ev.length + 1)) : ev
    const chunks = list.map((e, j) => ({ bytes: `data: ${JSON.stringify(e)}\n\n`, delay: delays[j % Math.max(1, delays.length)] ?? 0 }))
    chunks.push(!broken ? { bytes: 'data: [DONE]\n\n' } : fault.kind === 'break' ? { error: boom, delay: 1 } : { bytes: fault.kind === 'malformed' ? 'data: {"x\n\n' : 'data: {"error":{"message":"quota"}}\n\n' })
    return { status: 200, headers: { 'content-type': 'text/event-stream' }, chunks }
  })
  const run = async (k, c, how, plan) => {
    const srv = serve(k, c, how)
    const h = await k.start(clone(c), srv.fetch)
    const r = await observe(h.streams, h.promises, plan)
    await env.sleep(2000) // whatever was left alone has time to finish
    return { r, seen: h.seen, requests: srv.log.length }
  }
  const unread = async (name, { c, delays, plan }, t) => {
    t.nontrivial(wild(plan)); t.cls(...new Set(Object.values(plan).map(m => m.m)))
    const k = kinds[name]
    const want = await run(k, c, { delays }, {})
    const got = await run(k, c, { delays }, plan)
    for (const [out, w] of Object.entries(want.r)) {
      if (w === undefined) continue
      ok(w.ok ?? (w.end === 'closed'), () => `${name}.${out}: a good reply failed: ${show(tidy(w))}`)
      compare(name, out, plan[out] ?? { m: 'now' }, got.r[out], w)
    }
    eq(got.requests, want.requests, `${name}: requests`)
    if (want.seen) for (const l of ['events', 'stepFinish', 'finish']) eq(got.seen[l], want.seen[l], `${name}: ${l} seen by callbacks`)
  }
  const plans = k => modesFor(kinds[k].outs)
  const wild = plan => Object.values(plan).some(m => m.m !== 'now')

  return {
    rule: 'A case is one streaming call with generated content (multi-step with tools where it has them), a delivery schedule, optionally a fault, and for every output a way it is consumed: at once, late, slowly, cancelled after some pieces, or never touched. Non-trivial: at least one output is not read at once. Oracle: the same call with every output read at once; each output that is read delivers that content, each cancelled one a prefix of it, and callbacks and requests are the same.',
    assumptions: ['a stream that fails may drop pieces its reader has not taken yet, so after a fault only the failure itself is compared'],
    subs: [
      ...NAMES.map(name => ({
        name, runs: name === 'streamText' || name === 'responses' ? 1400 : 1000,
        arb: () => fc.record({ c: kinds[name].gen(), delays: fc.array(fc.constantFrom(0, 0, 1, 3), { maxLength: 3 }), plan: plans(name) }),
        check: (x, t) => unread(name, x, t),
      })),
      {
        name: 'big', runs: 240,
        arb: () => fc.constantFrom(...NAMES).chain(name => fc.record({ name: fc.constant(name), c: kinds[name].big(), delays: fc.array(fc.constantFrom(0, 0, 1, 3), { maxLength: 3 }), plan: plans(name) })),
        check: (x, t) => unread(x.name, x, t),
      },
      {
        name: 'faults', runs: 2500,
        arb: () => fc.constantFrom(...NAMES).chain(name => fc.record({ name: fc.constant(name), c: kinds[name].gen(), delays: fc.array(fc.constantFrom(0, 0, 1), { maxLength: 2 }), plan: plans(name), fault: fc.record({ kind: fc.constantFrom('break', 'malformed', 'event'), pos: fc.nat({ max: 20 }), request: fc.constantFrom(0, 0, 1) }) })),
        check: async ({ name, c, delays, plan, fault }, t) => {
          t.nontrivial(wild(plan)); t.cls(name, fault.kind)
          const k = kinds[name]
          const want = await run(k, c, { delays, fault }, {})
          const got = await run(k, c, { delays, fault }, plan)
          for (const [out, w] of Object.entries(want.r)) if (w !== undefined) compare(name, out, plan[out] ?? { m: 'now' }, got.r[out], w)
          eq(got.requests, want.requests, `${name}: requests`)
        },
      },
      {
        name: 'splitter', runs: 2500,
        arb: () => fc.record({
          parts: fc.array(fc.record({ think: fc.boolean(), s: text1(4) }), { maxLength: 6 }), cuts: fc.array(frac(), { maxLength: 8 }),
          gap: fc.constantFrom(0, 0, 1, 4), fail: fc.constantFrom(false, false, false, true), start: fc.boolean(), plan: modesFor(['text', 'reasoning']),
        }),
        check: async ({ parts, cuts, gap, fail: bad, start, plan }, t) => {
          t.nontrivial(wild(plan)); t.cls(bad && 'source-fails')
          const s = parts.map(p => p.think ? `<think>${p.s}</think>` : p.s).join('')
          const pieces = splitText(s, cuts)
          const go = async (pl) => {
            let i = 0
            const source = new ReadableStream({ pull: async (c) => { if (gap) await env.sleep(gap); if (i < pieces.length) c.enqueue(pieces[i++]); else if (bad) c.error(boom); else c.close() } })
            const r = X.extractReasoningStream(source, { tagName: 'think', startWithReasoning: start })
            return observe({ text: r.textStream, reasoning: r.reasoningStream }, {}, pl)
          }
          const want = await go({})
          const got = await go(plan)
          for (const [out, w] of Object.entries(want)) compare('extractReasoningStream', out, plan[out], got[out], w)
        },
      },
    ],
  }
}
