import { clone, cutsArb, enc, eq, fc, json, makeServer, mkThrown, ok, show, splitBytes, sseReply, sseStyle, sseText, thrown } from '../lib/kit.mjs'
import { buildOptions, newSeen } from '../lib/loop.mjs'
import { chatOutputs, modesFor, observe } from '../lib/observe.mjs'
import { dropOutId, R_FALLBACK, rEvents, rModel, rScenario } from '../lib/rloop.mjs'

const OUTS = ['eventStream', 'fullStream', 'textStream', 'reasoningTextStream', 'input', 'steps', 'usage', 'totalUsage']
// adjacent deltas may be cut anywhere: join them
const join = (events) => {
  const out = []
  for (const e of events) {
    const last = out.at(-1)
    if (typeof e.delta === 'string') {
      if (e.delta === '') continue
      if (last?.type === e.type && typeof last.delta === 'string') { last.delta += e.delta; continue }
    }
    out.push({ ...e })
  }
  return out
}
// what a caller has to see, derived from the script alone
const wantEvents = (sc, want) => want.used.flatMap((st, n) => {
  const out = [{ type: 'step.start' }]
  const step = want.steps[n]
  st.items.forEach((it, i) => {
    if (it.k === 'message') for (const p of it.parts) out.push({ type: 'text.start' }, { type: 'text.delta', delta: p.text }, { type: 'text.done', content: p.text })
    if (it.k === 'reasoning') for (const x of it.texts) out.push({ type: 'reasoning.start' }, { type: 'reasoning.delta', delta: x }, { type: 'reasoning.done', content: x })
    if (it.k === 'call') {
      const id = `call_${n}_${i}`
      out.push({ type: 'tool-call.start', toolCallId: id, toolName: it.name }, { type: 'tool-call.delta', delta: it.args }, { type: 'tool-call.done', args: it.args, toolCallId: id, toolCallType: 'function', toolName: it.name })
    }
  })
  for (const r of step.toolResults) out.push({ type: 'tool-result.done', ...r })
  out.push({ type: 'step.done', usage: step.usage })
  return out
})
const textOf = st => st.items.filter(i => i.k === 'message').flatMap(i => i.parts).map(p => p.text).join('')
const reasonOf = st => st.items.filter(i => i.k === 'reasoning').flatMap(i => i.texts).join('')

const KINDS = ['reject', 'status', 'malformed', 'errorEvent', 'break', 'break', 'empty', 'prepare', 'prepareAsync', 'stop', 'onEvent', 'onStepFinish', 'onFinish', 'none']
const faultArb = () => fc.record({ kind: fc.constantFrom(...KINDS), step: fc.nat({ max: 5 }), at: fc.nat({ max: 60 }), tail: fc.boolean() })

export default ({ lib }) => {
  const R = lib.responses
  const S = lib.shared
  const C = { ...lib.chat, ...lib.responses }
  return {
    rule: 'A case is a multi-step responses generation: any mix of messages with several text and refusal parts, reasoning items with any number of texts (none included), function calls and items of other types, cut into wire events and bytes at generated places. Non-trivial: two kinds of items in one reply or more than one step; in "faults", the fault strikes. Oracle: the exact event sequence derived from the script (deltas joined), agreement of the four streams, callbacks and promises, finish reasons by reply status; with a fault, every output settles with that one error.',
    assumptions: ['callbacks whose promise rejects after the call are the caller\'s own (not covered)', 'every reply ends with a terminal event or a fault'],
    subs: [
      {
        name: 'events', runs: 3500,
        arb: () => fc.record({ sc: rScenario(), cuts: cutsArb(6), delays: fc.array(fc.constantFrom(0, 0, 2), { maxLength: 3 }), style: sseStyle(), modes: modesFor(OUTS, { cancel: false }) }),
        check: async ({ sc, cuts, delays, style, modes }, t) => {
          const seen = newSeen()
          const sent = []
          const perStep = []
          const srv = makeServer((_, i) => {
            const ev = rEvents(sc.script[i] ?? R_FALLBACK, i)
            sent.push(...json(ev))
            return sseReply(sseText(ev, style), cuts, delays)
          })
          const want = rModel(sc)
          const r = R.responses(buildOptions(sc, C, seen, {
            fetch: srv.fetch,
            onEvent: (e) => { seen.events.push(clone(e)) },
            onStepFinish: (s) => { perStep.push(clone(s)) },
            onFinish: (s) => { seen.finish.push(clone(s)) },
          }))
          const [streams, promises] = chatOutputs(r)
          const got = await observe(streams, promises, modes)
          const late = await observe(Object.fromEntries(Object.entries(streams).filter(([k, s]) => s && !got[k])), promises)
          const all = { ...got, ...late }
          t.nontrivial(want.used.some(st => new Set(st.items.map(i => i.k)).size > 1) || want.used.length > 1)
          t.cls(`steps=${Math.min(4, want.used.length)}`, ...want.used.map(s => s.status), want.used.some(s => s.items.some(i => i.k === 'reasoning' && i.texts.length !== 1)) && 'reasoning-texts!=1')
          for (const k of ['eventStream', 'fullStream', 'textStream', 'reasoningTextStream']) ok(all[k].end === 'closed', () => `${k} ended ${all[k].end}: ${show(all[k].error)}`)
          for (const k of ['input', 'steps', 'usage', 'totalUsage']) ok(all[k].ok, () => `${k} rejected: ${show(all[k].error)}`)
          eq(join(all.eventStream.chunks), join(wantEvents(sc, want)), 'events (adjacent deltas joined)')
          eq(seen.events, all.eventStream.chunks, 'onEvent calls vs event stream')
          eq(all.fullStream.chunks, sent, 'full stream vs the events that were sent')
          eq(all.textStream.chunks.join(''), want.used.map(textOf).join(''), 'text stream')
          eq(all.reasoningTextStream.chunks.join(''), want.used.map(reasonOf).join(''), 'reasoning stream')
          eq(dropOutId(all.input.value), json(want.history), 'final history')
          eq(all.steps.value, want.steps, 'steps')
          eq(perStep, want.steps, 'onStepFinish calls')
          eq(seen.finish, [want.steps.at(-1)], 'onFinish calls')
          eq(all.usage.value, want.usage, 'usage')
          eq(all.totalUsage.value, want.totalUsage, 'total usage')
        },
      },
      {
        name: 'faults', runs: 3500,
        arb: () => fc.record({ sc: rScenario(), fault: faultArb(), modes: modesFor(OUTS), cuts: cutsArb(4), delay: fc.constantFrom(0, 1) }),
        check: async ({ sc, fault, modes, cuts, delay }, t) => {
          const seen = newSeen()
          const want = rModel(sc)
          const k = fault.step % want.requests.length
          const boom = mkThrown(fault.what)
          let is = e => e === boom
          let arrived
          const plan = i => rEvents(sc.script[i] ?? R_FALLBACK, i)
          const srv = makeServer((_, i) => {
            if (i === k) {
              switch (fault.kind) {
                case 'reject': return { reject: boom, latency: fault.at % 4 }
                case 'status': is = e => S.APICallError.isInstance(e) && e.statusCode === 400 + fault.at; return { status: 400 + fault.at, body: 'nope', latency: 1 }
                case 'empty': is = e => S.InvalidResponseError.isInstance(e); return { status: 200, body: null }
                case 'malformed': case 'errorEvent': case 'break': {
                  const events = plan(i)
                  const at = fault.at % events.length // before the terminal event at the latest
                  arrived = events.slice(0, at)
                  const chunks = arrived.map(p => ({ bytes: `data: ${JSON.stringify(p)}\n\n` }))
                  if (fault.kind === 'break') { chunks.push({ error: boom, delay: 3 }) }
                  else {
                    const bad = fault.kind === 'malformed' ? '{"type":"response.' : '{"type":"error","error":{"message":"quota"}}'
                    is = e => (fault.kind === 'malformed' ? S.JSONParseError : S.RemoteAPIError).isInstance(e)
                    chunks.push({ bytes: `data: ${bad}\n\n`, delay: 3 })
                    if (fault.tail) chunks.push({ bytes: events.slice(at).map(p => `data: ${JSON.stringify(p)}\n\n`).join('') })
                  }
                  return { headers: { 'content-type': 'text/event-stream' }, chunks }
                }
              }
            }
            return { headers: { 'content-type': 'text/event-stream' }, chunks: splitBytes(enc.encode(sseText(plan(i))), cuts).map(b => ({ bytes: b, delay })) }
          })
          const o = buildOptions(sc, C, seen, { fetch: srv.fetch })
          let fails = ['reject', 'status', 'malformed', 'errorEvent', 'break', 'empty', 'prepare', 'prepareAsync', 'onStepFinish', 'onFinish'].includes(fault.kind)
          if (fault.kind === 'prepare' || fault.kind === 'prepareAsync') {
            const inner = o.prepareStep
            o.prepareStep = a => a.stepNumber === k ? (fault.kind === 'prepare' ? (() => { throw boom })() : Promise.reject(boom)) : inner?.(a)
          }
          if (fault.kind === 'stop') {
            const inner = o.stopWhen ?? C.stepCountAtLeast(1)
            o.stopWhen = (c) => { if (c.steps.length - 1 === k) { fails = true; throw boom } return inner(c) }
          }
          if (fault.kind === 'onStepFinish') o.onStepFinish = (s) => { seen.stepFinish.push(clone(s)); if (seen.stepFinish.length - 1 === k) throw boom }
          let events = 0
          if (fault.kind === 'onEvent') o.onEvent = () => { if (events++ === fault.at) { fails = true; throw boom } }
          o.onFinish = (s) => { seen.finish.push(s); if (fault.kind === 'onFinish') throw boom }
          const [streams, promises] = chatOutputs(R.responses(o))
          const got = await observe(streams, promises, modes)
          const late = await observe(Object.fromEntries(Object.entries(streams).filter(([n, s]) => s && !got[n])), promises)
          const all = { ...got, ...late }
          t.cls(fault.kind, fails ? 'fails' : 'succeeds', k > 0 && 'later-step')
          t.nontrivial(fails)
          const errors = new Set()
          for (const [n, x] of Object.entries(all)) {
            if (x.ok !== undefined) eq(x.ok, !fails, `${n} (a ${fault.kind} fault in step ${k}): settled as success`)
            else if (x.end !== 'cancelled') ok(x.end === (fails ? 'errored' : 'closed'), () => `${n} (a ${fault.kind} fault in step ${k}) ended ${x.end} ${show(x.error ?? '')}`)
            if (x.ok === false || x.end === 'errored') errors.add(x.error)
          }
          if (fails) {
            ok(errors.size === 1, () => `all outputs must fail with the one error, got ${show([...errors])}`)
            ok(is([...errors][0]), () => `unexpected error for a ${fault.kind} fault: ${show([...errors][0])}`)
          }
          eq(seen.finish.length, 1, 'onFinish calls')
          if (fails && !['onFinish', 'onEvent'].includes(fault.kind)) {
            eq(srv.log.length, fault.kind.startsWith('prepare') ? k : k + 1, 'number of requests around the fault')
            eq(seen.stepFinish.map(s => s.text), want.steps.slice(0, fault.kind === 'onStepFinish' ? k + 1 : k).map(s => s.text), 'steps finished before the fault')
          }
          if (arrived) {
            const sent = [...Array.from({ length: k }, (_, i) => plan(i)).flat(), ...arrived]
            if ((modes.fullStream?.m ?? 'now') === 'now') eq(all.fullStream.chunks, json(sent), 'events delivered before the fault')
            if ((modes.textStream?.m ?? 'now') === 'now') eq(all.textStream.chunks.join(''), sent.filter(e => e.type === 'response.output_text.delta' || e.type === 'response.refusal.delta').map(e => e.delta).join(''), 'text delivered before the fault')
          }
        },
      },
    ],
  }
}
