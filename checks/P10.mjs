import { collect, cutsArb, enc, eq, fc, json, makeServer, mkThrown, ok, outcome, show, splitBytes, splitText, sseReply, sseText, thrown } from '../lib/kit.mjs'
import { objectSchema } from '../lib/endpoints.mjs'
import { buildOptions, chunkPlan, FALLBACK, modelLoop, newSeen, replyChunks, scenario } from '../lib/loop.mjs'
import { env } from '../lib/env.mjs'
import { makeStreamKinds } from '../lib/streams.mjs'
import { chatOutputs, modesFor, observe } from '../lib/observe.mjs'

const KINDS = ['reject', 'status', 'status', 'malformed', 'errorEvent', 'break', 'empty', 'prepare', 'prepareAsync', 'stop', 'onEvent', 'onStepFinish', 'onFinish', 'none']
export const faultArb = () => fc.record({ kind: fc.constantFrom(...KINDS), step: fc.nat({ max: 5 }), at: fc.nat({ max: 40 }), tail: fc.boolean(), what: thrown() })

export default ({ lib }) => {
  const kinds = makeStreamKinds(lib)
  const X = lib.xsai
  const S = lib.shared
  const run = (start, sc, plans, fault, modes, cuts, delay, t, name) => {
    const seen = newSeen()
    const want = modelLoop(sc, 'stream', plans)
    const k = fault.step % want.requests.length
    const boom = mkThrown(fault.what)
    let is = e => e === boom
    let arrived
    const plan = i => replyChunks(sc.script[i] ?? FALLBACK, i, plans[i % plans.length])
    const wireFault = ['reject', 'status', 'malformed', 'errorEvent', 'break', 'empty'].includes(fault.kind)
    const reply = (i, hit) => {
      const payloads = plan(i).map(p => JSON.stringify(p))
      let bytes
      if (hit && (fault.kind === 'malformed' || fault.kind === 'errorEvent' || fault.kind === 'break')) {
        const at = fault.at % (payloads.length + 1)
        arrived = plan(i).slice(0, at)
        bytes = [...payloads.slice(0, at).map(p => ({ bytes: `data: ${p}\n\n` }))]
        const bad = fault.kind === 'malformed' ? '{"choices":[' : fault.kind === 'errorEvent' ? '{"error":{"message":"quota"}}' : null
        if (bad) { bytes.push({ bytes: `data: ${bad}\n\n`, delay: 3 }); if (fault.tail) bytes.push({ bytes: payloads.slice(at).map(p => `data: ${p}\n\n`).join('') }) }
        else { bytes.push({ error: boom, delay: 3 }) }
        if (fault.kind === 'malformed') is = e => S.JSONParseError.isInstance(e)
        if (fault.kind === 'errorEvent') is = e => S.RemoteAPIError.isInstance(e)
        return { headers: { 'content-type': 'text/event-stream' }, chunks: bytes }
      }
      return { headers: { 'content-type': 'text/event-stream' }, chunks: splitBytes(enc.encode(sseText(payloads)), cuts).map(b => ({ bytes: b, delay })) }
    }
    const srv = makeServer((_, i) => {
      if (i !== k) return reply(i, false)
      switch (fault.kind) {
        case 'reject': return { reject: boom, latency: fault.at % 4 }
        case 'status': is = e => S.APICallError.isInstance(e) && e.statusCode === 400 + fault.at; return { status: 400 + fault.at, body: 'nope', latency: 1 }
        case 'empty': is = e => S.InvalidResponseError.isInstance(e); return { status: 200, body: null }
        default: return reply(i, true)
      }
    })
    const o = buildOptions(sc, X, seen, { fetch: srv.fetch })
    let events = 0
    let willFail = wireFault
    if (fault.kind === 'prepare' || fault.kind === 'prepareAsync') {
      const inner = o.prepareStep
      o.prepareStep = (a) => {
        if (a.stepNumber === k) { if (fault.kind === 'prepare') throw boom; return Promise.reject(boom) }
        return inner?.(a)
      }
      willFail = true
    }
    if (fault.kind === 'stop') {
      const inner = o.stopWhen ?? X.stepCountAtLeast(1)
      o.stopWhen = (c) => { if (c.steps.length - 1 === k) throw boom; return inner(c) }
      willFail = true
    }
    if (fault.kind === 'onEvent') {
      o.onEvent = () => { if (events++ === fault.at) { willFail = true; throw boom } }
    }
    if (fault.kind === 'onStepFinish') {
      o.onStepFinish = (s) => { seen.stepFinish.push(s); if (seen.stepFinish.length - 1 === k) throw boom }
      willFail = true
    }
    o.onFinish = (s) => { seen.finish.push(s); if (fault.kind === 'onFinish') throw boom }
    if (fault.kind === 'onFinish') willFail = true
    return { seen, want, k, srv, o, is, async finish() {
      const r = await start(o)
      const [streams, promises] = chatOutputs(r)
      const got = await observe(streams, promises, modes)
      // whatever was not consumed has settled too: look now, long after
      const late = await observe(
        Object.fromEntries(Object.entries(streams).filter(([n, s]) => s && got[n] === undefined)),
        Object.fromEntries(Object.entries(promises).filter(([n, s]) => s && got[n] === undefined)),
      )
      t.cls(fault.kind, `${name}:${willFail ? 'fails' : 'succeeds'}`, k > 0 && 'later-step')
      t.nontrivial(willFail)
      const all = { ...got, ...late }
      const errors = new Set()
      for (const [n, x] of Object.entries(all)) {
        if (n in promises && promises[n]) {
          eq(x.ok, !willFail, `${n} (a ${fault.kind} fault in step ${k}): settled as success`)
          if (willFail) errors.add(x.error)
        }
        else if (x.end !== 'cancelled') {
          ok(x.end === (willFail ? 'errored' : 'closed'), () => `${n} (a ${fault.kind} fault in step ${k}) ended ${x.end} ${show(x.error ?? '')}`)
          if (willFail) errors.add(x.error)
        }
      }
      if (willFail) {
        ok(errors.size === 1, () => `all outputs must fail with the one error, got ${show([...errors])}`)
        ok(is([...errors][0]), () => `unexpected error for a ${fault.kind} fault: ${show([...errors][0])}`)
      }
      eq(seen.finish.length, 1, 'onFinish calls')
      const reqs = !willFail || fault.kind === 'onFinish' || fault.kind === 'onEvent' ? undefined : fault.kind.startsWith('prepare') ? k : k + 1
      if (reqs !== undefined) eq(srv.log.length, reqs, 'number of requests around the fault')
      if (fault.kind !== 'onEvent' && fault.kind !== 'onFinish' && willFail) eq(seen.stepFinish.map(s => s.text), want.steps.slice(0, fault.kind === 'onStepFinish' ? k + 1 : k).map(s => s.text), 'steps finished before the fault')
      // content that was there before the fault reaches whoever kept reading
      if (arrived && name === 'streamText' && (modes.textStream?.m ?? 'now') === 'now') {
        const txt = want.steps.slice(0, k).map(s => s.text).join('') + arrived.map(c => c.choices?.[0]?.delta?.content ?? c.choices?.[0]?.delta?.refusal ?? '').join('')
        eq(all.textStream.chunks.join(''), txt, 'text delivered before the fault')
      }
      if (arrived && (modes.fullStream?.m ?? 'now') === 'now')
        eq(all.fullStream.chunks, json([...Array.from({ length: k }, (_, i) => plan(i)).flat(), ...arrived]), 'chunks delivered before the fault')
    } }
  }
  const chat = (name, start) => ({
    name, runs: 2500,
    arb: () => fc.record({ sc: scenario({ step: { parts: false } }), plans: fc.array(chunkPlan(), { minLength: 1, maxLength: 2 }), fault: faultArb(), modes: modesFor(['eventStream', 'fullStream', 'textStream', 'reasoningTextStream', 'messages', 'steps', 'usage', 'totalUsage']), cuts: cutsArb(4), delay: fc.constantFrom(0, 1) }),
    check: ({ sc, plans, fault, modes, cuts, delay }, t) => run(start, sc, plans, fault, modes, cuts, delay, t, name).finish(),
  })
  return {
    rule: 'A case is a multi-step streamed generation with one fault - transport rejection, bad status, absent body, malformed chunk, error event, broken connection at a generated chunk of a generated step, or a callback (step preparation, stop condition, event, step and finish callbacks) that throws - and one consumption pattern (each output read at once, late, slowly, cancelled or never). Non-trivial: the fault strikes. Oracle: every output settles, all with the one expected error (or all successfully when there is none); unhandled rejections and hangs are detected under a virtual clock.',
    assumptions: ['callbacks whose promise rejects after the call are the caller\'s own (not covered)'],
    subs: [
      chat('streamText', o => X.streamText(o)),
      chat('telemetry', o => lib.telemetry.streamText({ ...o, telemetry: {} })),
      {
        name: 'streamObject', runs: 1500,
        arb: () => fc.record({ out: fc.constantFrom('object', 'array'), body: fc.constantFrom('{"a":"hello"}', '{"elements":[{"a":1},{"a":2}]}'), cuts: cutsArb(6), kind: fc.constantFrom('reject', 'status', 'malformed', 'errorEvent', 'break'), at: fc.nat({ max: 10 }), what: thrown(), modes: modesFor(['eventStream', 'fullStream', 'textStream', 'elementStream', 'partialObjectStream', 'messages', 'steps']) }),
        check: async ({ out, body, cuts, kind, at, what, modes }, t) => {
          t.nontrivial(); t.cls(kind)
          const boom = mkThrown(what)
          const pieces = splitText(body, cuts).map(content => `data: ${JSON.stringify({ choices: [{ index: 0, delta: { content } }] })}\n\n`)
          const n = at % (pieces.length + 1)
          const tail = { malformed: { bytes: 'data: {oops\n\n', delay: 2 }, errorEvent: { bytes: 'data: {"error":"x"}\n\n', delay: 2 }, break: { error: boom, delay: 2 } }[kind]
          const srv = makeServer(() => kind === 'reject' ? { reject: boom } : kind === 'status' ? { status: 500, body: 'x' } : { chunks: [...pieces.slice(0, n).map(bytes => ({ bytes })), tail] })
          const r = await X.streamObject({ baseURL: 'https://h.example/v1', apiKey: 'k', model: 'm', messages: [{ role: 'user', content: 'q' }], schema: objectSchema, output: out, fetch: srv.fetch })
          const [streams, promises] = chatOutputs(r)
          const got = await observe(streams, promises, modes)
          const rest = Object.fromEntries(Object.entries(streams).filter(([k2, s]) => s && got[k2] === undefined))
          const late = await observe(rest, promises)
          const errors = new Set()
          for (const [k2, x] of Object.entries({ ...got, ...late })) {
            if (x.ok !== undefined) ok(!x.ok, () => `${k2} resolved after a ${kind} fault`)
            else if (x.end !== 'cancelled') ok(x.end === 'errored', () => `${k2} ended ${x.end} after a ${kind} fault`)
            if (x.ok === false || x.end === 'errored') errors.add(x.error)
          }
          ok(errors.size === 1, () => `all outputs must fail with one error, got ${show([...errors])}`)
        },
      },
      {
        // a callback that throws, in every kind of call that takes callbacks
        name: 'callbacks', runs: 2500,
        arb: () => fc.constantFrom('streamText', 'telemetryStreamText', 'streamObject', 'responses', 'responses').chain(name => fc.record({ name: fc.constant(name), c: kinds[name].gen(), which: fc.constantFrom('onFinish', 'onFinishAsync', 'onEvent', 'onStepFinish', 'prepareStep', 'prepareAsync', 'stopWhen', 'preOtherCall', 'preOtherCallAsync', 'preOtherResult', 'postOther'), at: fc.nat({ max: 12 }), what: thrown(), modes: modesFor(kinds[name].outs), cuts: cutsArb(3) })),
        check: async ({ name, c, which, at, what, modes, cuts }, t) => {
          const kind = kinds[name]
          const srv = makeServer((_, i) => sseReply(sseText(kind.events(json(c), i)), cuts))
          const boom = mkThrown(what)
          let calls = 0
          let struck = false
          const strike = (hit) => { if (hit) { struck = true; throw boom } }
          const nth = which === 'onEvent' ? at : at % 3
          const finish = []
          const h = await kind.start(json(c), srv.fetch, () => ({
            onFinish: async (s) => { finish.push(s); if (which === 'onFinishAsync') { await env.sleep(1); strike(true) } },
            ...(which === 'onFinish' ? { onFinish: (s) => { finish.push(s); strike(true) } } : {}),
            ...(which === 'onEvent' ? { onEvent: () => strike(calls++ === nth) } : {}),
            ...(which === 'onStepFinish' ? { onStepFinish: () => strike(calls++ === nth) } : {}),
            ...(which === 'prepareStep' ? { prepareStep: () => { strike(calls++ === nth); return {} } } : {}),
            ...(which === 'prepareAsync' ? { prepareStep: async () => { await env.sleep(1); strike(calls++ === nth); return {} } } : {}),
            ...(which.startsWith('preOther') ? { preToolCall: (call) => { if (calls++ !== nth) return; struck = true; const to = { ...call, toolCallId: 'another', ...(which === 'preOtherResult' ? { args: {}, result: 'r' } : {}) }; return which === 'preOtherCallAsync' ? env.sleep(1).then(() => to) : to } } : {}),
            ...(which === 'postOther' ? { postToolCall: (res) => { if (calls++ !== nth) return; struck = true; return { ...res, toolCallId: `${res.toolCallId}x` } } } : {}),
            ...(which === 'stopWhen' ? { stopWhen: () => { strike(calls++ === nth); return false } } : {}),
          }))
          const got = await observe(h.streams, h.promises, modes)
          const late = await observe(
            Object.fromEntries(Object.entries(h.streams).filter(([n, s]) => s && got[n] === undefined)),
            Object.fromEntries(Object.entries(h.promises).filter(([n]) => got[n] === undefined)),
          )
          t.nontrivial(struck); t.cls(name, struck ? which : 'not-reached')
          for (const [n, x] of Object.entries({ ...got, ...late })) {
            if (x.end === 'cancelled') continue
            const good = x.ok ?? (x.end === 'closed')
            ok(good === !struck, () => `${name}.${n}: ${good ? 'success' : 'failure'} though ${which} ${struck ? 'threw' : 'did not throw'}: ${show(x.error ?? x.value)}`)
            if (struck) ok(which.includes('Other') ? S.InvalidToolCallError.isInstance(x.error) && x.error.reason === 'tool_call_id_mismatch' : x.error === boom, () => `${name}.${n}: failed with ${show(x.error)} instead of what ${which} calls for`)
          }
          eq(finish.length, 1, `${name}: onFinish calls`)
        },
      },
      {
        // nothing is consumed at all: the process must survive
        name: 'ignored', runs: 800,
        arb: () => fc.record({ kind: fc.constantFrom('reject', 'status', 'malformed', 'break'), which: fc.constantFrom('streamText', 'streamObject', 'telemetry', 'responses', 'streamTranscription', 'streamSpeech') }),
        check: async ({ kind, which }, t) => {
          t.nontrivial(); t.cls(which)
          const srv = makeServer(() => kind === 'reject' ? { reject: new Error('BOOM') } : kind === 'status' ? { status: 500, body: 'x' } : { chunks: [kind === 'malformed' ? { bytes: 'data: {oops\n\n' } : { error: new Error('BOOM'), delay: 1 }] })
          const o = { baseURL: 'https://h.example/v1', apiKey: 'k', model: 'm', messages: [{ role: 'user', content: 'q' }], fetch: srv.fetch }
          if (which === 'streamText') X.streamText(o)
          else if (which === 'streamObject') await X.streamObject({ ...o, schema: objectSchema })
          else if (which === 'telemetry') await outcome(lib.telemetry.streamText({ ...o, telemetry: {} }))
          else if (which === 'responses') lib.responses.responses({ ...o, messages: undefined, input: 'q' })
          else if (which === 'streamTranscription') X.streamTranscription({ ...o, messages: undefined, file: new Blob(['x']) })
          else await outcome(X.streamSpeech({ ...o, messages: undefined, input: 'q', voice: 'v' }))
        },
      },
    ],
  }
}
