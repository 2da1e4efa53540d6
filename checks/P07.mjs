import { clone, collect, cutsArb, eq, fc, json, makeServer, ok, show, sseReply, sseText } from '../lib/kit.mjs'
import { buildOptions, chunkPlan, FALLBACK, modelLoop, newSeen, replyChunks, scenario } from '../lib/loop.mjs'
import { checkEvents } from '../lib/grammar.mjs'
import { makeStreamKinds } from '../lib/streams.mjs'

export default ({ lib }) => {
  const X = lib.xsai
  const big = fc.record({ c: makeStreamKinds(lib).streamText.big() })
  return {
    rule: 'A case is a multi-step streamed generation with a generated chunk plan per reply. Non-trivial: text or reasoning and a tool call occur, over at least two steps. Oracle: an event grammar (brackets, concatenation, announcement before use, one step end per step carrying its usage) plus exact agreement of events, text, reasoning and chunk streams with the scripted reply and with each other.',
    subs: [{
      name: 'events',
      runs: 4500,
      arb: () => fc.record({ sc: scenario({ step: { parts: false } }), plans: fc.array(chunkPlan(), { minLength: 1, maxLength: 3 }), cuts: cutsArb(5), delays: fc.array(fc.constantFrom(0, 0, 2), { maxLength: 3 }), asyncEvent: fc.boolean() }),
      check: async ({ sc, plans, cuts, delays, asyncEvent }, t) => {
        const seen = newSeen()
        const sent = []
        const srv = makeServer((rec, i) => {
          const chunks = replyChunks(sc.script[i] ?? FALLBACK, i, plans[i % plans.length])
          sent.push(...json(chunks))
          return sseReply(sseText(chunks), cuts, delays)
        })
        const want = modelLoop(sc, 'stream', plans)
        const perStep = []
        const r = X.streamText(buildOptions(sc, X, seen, {
          fetch: srv.fetch,
          onEvent: (e) => { seen.events.push(clone(e)); return asyncEvent ? Promise.resolve() : undefined },
          onStepFinish: (s) => { perStep.push({ s: clone(s), after: seen.events.length }) },
        }))
        const [ev, full, text, reasoning] = await Promise.all([r.eventStream, r.fullStream, r.textStream, r.reasoningTextStream].map(s => collect(s)))
        for (const [n, s] of Object.entries({ ev, full, text, reasoning })) ok(s.end === 'closed', () => `${n} ended ${s.end}: ${show(s.error)}`)
        const stepsOut = await r.steps
        t.nontrivial(want.steps.length >= 2 && want.steps.some(s => s.text) && want.steps.some(s => s.toolCalls.length > 0))
        t.cls(`steps=${Math.min(4, want.steps.length)}`)
        eq(seen.events, ev.chunks, 'onEvent calls vs event stream')
        const g = checkEvents(ev.chunks)
        ok(!g.open, 'the last step never ended')
        eq(g.steps.length, want.steps.length, 'number of steps in the event stream')
        g.steps.forEach((s, i) => {
          const st = sc.script[i] ?? FALLBACK
          const w = want.steps[i]
          eq(s.text.join(''), w.text, `step ${i} text deltas`)
          eq(s.reasoning.join(''), st.reasoning?.text ?? '', `step ${i} reasoning deltas`)
          eq(s.usage, w.usage, `step ${i} usage at step.done`)
          const calls = st.calls.map((c, k) => ({ args: c.args, toolCallId: `call_${i}_${k}`, toolCallType: 'function', toolName: c.name, type: 'tool-call.done' }))
          eq(s.doneCalls, calls, `step ${i} completed tool calls`)
          eq(s.results, w.toolResults.map(x => ({ ...x, type: 'tool-result.done' })), `step ${i} tool results`)
          const starts = [...s.started].map(([id, x]) => `${id}:${x.name}`)
          eq([...starts].sort(), calls.map(c => `${c.toolCallId}:${c.toolName}`).sort(), `step ${i} announced tool calls`)
          // every argument piece is reported, in the order it arrived
          const pieces = replyChunks(st, i, plans[i % plans.length]).flatMap(c => c.choices?.[0]?.delta?.tool_calls ?? []).map(d => d.function?.arguments ?? '').filter(Boolean)
          eq((s.deltas ?? []).filter(Boolean), pieces, `step ${i} argument deltas`)
        })
        eq(full.chunks, sent, 'full stream vs the chunks that were sent')
        eq(text.chunks.join(''), want.steps.map(s => s.text).join(''), 'text stream')
        eq(text.chunks.filter(Boolean), ev.chunks.filter(e => e.type === 'text.delta').map(e => e.delta).filter(Boolean), 'text stream vs text events')
        eq(reasoning.chunks.filter(Boolean), ev.chunks.filter(e => e.type === 'reasoning.delta').map(e => e.delta).filter(Boolean), 'reasoning stream vs reasoning events')
        eq(stepsOut, perStep.map(p => p.s), 'steps vs onStepFinish')
        eq(stepsOut.length, g.steps.length, 'one step event per step')
      },
    }, {
      // a call of thousands of events: nothing is counted, capped or dropped
      name: 'long', runs: 40,
      arb: () => big,
      check: async ({ c }, t) => {
        const sent = []
        const seen = newSeen()
        const srv = makeServer((_, i) => { const chunks = replyChunks(c.sc.script[i] ?? FALLBACK, i, c.plans[i % c.plans.length]); sent.push(...json(chunks)); return sseReply(sseText(chunks)) })
        const r = X.streamText(buildOptions(c.sc, X, seen, { fetch: srv.fetch, onEvent: (e) => { seen.events.push(clone(e)) } }))
        const [ev, full, text, reasoning] = await Promise.all([r.eventStream, r.fullStream, r.textStream, r.reasoningTextStream].map(s => collect(s)))
        const steps = await r.steps
        t.nontrivial(ev.chunks.length > 500); t.cls(`events>${Math.min(2000, Math.floor(ev.chunks.length / 500) * 500)}`)
        eq(seen.events, ev.chunks, 'onEvent calls vs event stream')
        const g = checkEvents(ev.chunks)
        ok(!g.open, 'the last step never ended')
        eq(full.chunks, sent, 'full stream vs the chunks that were sent')
        eq(text.chunks.join(''), srv.log.map((_, i) => (c.sc.script[i] ?? FALLBACK).text ?? '').join(''), 'text stream')
        eq(g.steps.map(s => s.text.join('')), steps.map(s => s.text ?? ''), 'text deltas of each step')
        eq(g.steps.flatMap(s => s.reasoning).join(''), reasoning.chunks.join(''), 'reasoning events vs reasoning stream')
        eq(g.steps.map(s => s.doneCalls.map(d => d.toolCallId)), steps.map(s => s.toolCalls.map(d => d.toolCallId)), 'completed tool calls')
      },
    }, {
      // the callback is not a reader of the event stream: it sees everything whatever happens to that stream
      name: 'callback', runs: 1200,
      arb: () => fc.record({ sc: scenario({ step: { parts: false } }), plans: fc.array(chunkPlan(), { minLength: 1, maxLength: 2 }), delays: fc.array(fc.constantFrom(0, 0, 2), { maxLength: 3 }), left: fc.constantFrom('never', 0, 0, 1, 2, 5), others: fc.boolean() }),
      check: async ({ sc, plans, delays, left, others }, t) => {
        const go = async (left, others) => {
          const seen = newSeen()
          const srv = makeServer((_, i) => sseReply(sseText(replyChunks(sc.script[i] ?? FALLBACK, i, plans[i % plans.length])), [0.3, 0.6], delays))
          const r = X.streamText(buildOptions(sc, X, seen, { fetch: srv.fetch, onEvent: (e) => { seen.events.push(clone(e)) } }))
          const reading = left === 'never' ? [] : [left === 0 ? r.eventStream.cancel('enough') : collect(r.eventStream, { cancelAfter: left ?? undefined })]
          if (others) reading.push(r.fullStream.cancel(), r.textStream.cancel(), r.reasoningTextStream.cancel())
          await Promise.all(reading)
          await r.steps
          return seen
        }
        const want = await go(null, false)
        const got = await go(left, others)
        t.nontrivial(want.events.length > 4); t.cls(`left:${left}`)
        checkEvents(got.events)
        eq(got.events, want.events, 'onEvent calls while the event stream is not read')
        eq(got.stepFinish, want.stepFinish, 'onStepFinish calls while the event stream is not read')
      },
    }],
  }
}
