import { clone, cutsArb, eq, fc, jsonReply, makeServer, ok, outcome, show, sseReply, sseText } from '../lib/kit.mjs'
import { buildOptions, buildStop, chunkPlan, dropIndex, evalStop, FALLBACK, modelLoop, newSeen, replyChunks, replyJSON, scenario, stopSpec, TOOL_NAMES } from '../lib/loop.mjs'
import { dropOutId, R_FALLBACK, rEvents, rModel, rScenario } from '../lib/rloop.mjs'

const MODES = ['generateText', 'streamText', 'responses', 'telemetry.generateText', 'telemetry.streamText']
const ctxArb = () => fc.array(fc.record({ finishReason: fc.constantFrom('stop', 'tool_calls', 'length'), text: fc.constantFrom(undefined, '', 'a', 'hello'), toolCalls: fc.array(fc.constantFrom(...TOOL_NAMES, '').map(toolName => ({ args: '{}', toolCallId: 'c', toolCallType: 'function', toolName })), { maxLength: 3 }), usage: fc.constantFrom(undefined, { inputTokens: 1, outputTokens: 2, totalTokens: 3 }) }).map(s => ({ ...s, toolResults: [] })), { minLength: 1, maxLength: 6 })
  .chain(steps => fc.array(fc.constant({ role: 'user', content: 'q' }), { maxLength: 9 }).map(input => ({ steps, step: steps.at(-1), input })))

export default ({ lib }) => {
  const X = lib.xsai
  const R = lib.responses
  const sub = how => ({
    name: how.replace('.', '-'), runs: how.includes('.') ? 900 : 1800,
    arb: () => fc.record({
      sc: how === 'responses'
        ? rScenario({ stop: fc.option(stopSpec(3), { nil: undefined, freq: 8 }) })
        : scenario({ stop: fc.option(stopSpec(3), { nil: undefined, freq: 8 }), ...(how.endsWith('streamText') ? { step: { parts: false } } : {}) }),
      plans: fc.array(chunkPlan(), { minLength: 1, maxLength: 2 }), cuts: cutsArb(3), numeric: fc.constantFrom('', 'truthy'),
    }),
    check: async ({ sc, plans, cuts }, t) => {
      const resp = how === 'responses'
      const streamed = how.endsWith('streamText')
      const norm = resp ? dropOutId : dropIndex
      const want = resp ? rModel(sc) : modelLoop(sc, streamed ? 'stream' : 'generate', plans)
      const seen = newSeen()
      const srv = makeServer((_, i) => resp ? sseReply(sseText(rEvents(sc.script[i] ?? R_FALLBACK, i)), cuts) : streamed ? sseReply(sseText(replyChunks(sc.script[i] ?? FALLBACK, i, plans[i % plans.length])), cuts) : jsonReply(replyJSON(sc.script[i] ?? FALLBACK, i)))
      const o = buildOptions(sc, resp ? R : X, seen, { fetch: srv.fetch, ...(how.startsWith('telemetry') ? { telemetry: {} } : {}) })
      const [ns, fn] = how.includes('.') ? ['telemetry', how.split('.')[1]] : ['xsai', how]
      const r = await outcome((async () => (await (resp ? R.responses(o) : lib[ns][fn](o))).steps)())
      ok(r.ok, () => `${how} failed: ${show(r.error)}`)
      t.nontrivial(sc.stop !== undefined && want.steps.some(s => s.toolCalls.length > 0))
      t.cls(`requests=${Math.min(4, want.requests.length)}`, sc.stop === undefined && 'default', want.stops.at(-1)?.r ? 'stopped' : 'ran out')
      if (sc.stop === undefined) eq(srv.log.length, 1, `${how}: requests without a stop condition`)
      eq(srv.log.length, want.requests.length, `${how}: number of requests`)
      const fix = s => ({ ...s, text: s.text ?? undefined })
      const n = s => ({ ...s, input: norm(s.input), step: fix(s.step), steps: s.steps.map(fix) })
      if (sc.stop) eq(seen.stops.map(n), want.stops.map(n), `${how}: evaluations of the stop condition`)
      eq(r.value.map(fix), want.steps.map(fix), `${how}: steps`)
      eq(seen.exec.length, want.exec.length, `${how}: executed calls`)
    },
  })
  return {
    rule: 'Algebra: a generated condition expression on a generated run state. Runs: a generated conversation in one of the generation clients with a generated condition expression (or none). Non-trivial: the expression is composite, resp. the run has a condition and a tool call. Oracle: independent Boolean evaluation of the expression, the exact log of evaluations with their arguments, and the reference loop.',
    subs: [
      {
        name: 'algebra', runs: 6000,
        arb: () => fc.record({ a: stopSpec(4), b: stopSpec(2), ctx: ctxArb() }),
        check: async ({ a, b, ctx }, t) => {
          t.nontrivial(['and', 'or', 'not'].includes(a.k))
          t.cls(a.k, `${evalStop(a, ctx)}`)
          for (const C of [X, lib.chat, { ...X, ...R }]) {
            const before = clone(ctx)
            const A = buildStop(a, C)
            const B = buildStop(b, C)
            const is = (f, v, label) => eq(f(ctx) === true, v, label)
            const va = evalStop(a, ctx)
            const vb = evalStop(b, ctx)
            is(A, va, 'condition')
            is(C.and(A, B), va && vb, 'and')
            is(C.or(A, B), va || vb, 'or')
            is(C.not(A), !va, 'not')
            is(C.not(C.and(A, B)), !va || !vb, 'De Morgan')
            is(C.and(), true, 'empty conjunction')
            is(C.or(), false, 'empty disjunction')
            is(C.and(A), va, 'unary and'); is(C.or(A), va, 'unary or')
            eq(ctx, before, 'a condition must not change its context')
            // reusable: the same condition object gives the same answer again
            is(A, va, 'condition asked again')
          }
        },
      },
      ...MODES.map(sub),
    ],
  }
}
