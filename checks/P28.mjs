import { collect, cutsArb, eq, fc, makeServer, ok, outcome, show, sseReply, sseText } from '../lib/kit.mjs'
import { buildOptions, newSeen } from '../lib/loop.mjs'
import { dropOutId, longRRun, R_FALLBACK, rEvents, rMarathon, rModel, rScenario } from '../lib/rloop.mjs'

// calls of one step run in parallel, so in any order; ids may repeat. Executions are listed step by step
const byId = (a, k = x => JSON.stringify([x.toolCallId, x.tool, x.input])) => [...a].sort((x, y) => k(x) < k(y) ? -1 : 1)

export default ({ lib }) => {
  const R = lib.responses
  return {
    rule: 'A case is a whole run of the responses client: string or item input, tools, hooks, step preparation, stop condition and a scripted server whose replies hold any mix of message, reasoning, function-call, compaction and vendor items. Non-trivial: a function call whose reply is followed by another request. Oracle: a reference model compared on every request body, final input, steps, usage and callbacks.',
    subs: [['loop', 4500, () => rScenario({ ids: true })], ['long', 240, () => rScenario(longRRun())], ['marathon', 24, rMarathon]].map(([name, runs, arb]) => ({
      name, runs,
      arb: () => fc.record({ sc: arb(), cuts: cutsArb(6), delays: fc.array(fc.constantFrom(0, 0, 2), { maxLength: 3 }) }),
      check: async ({ sc, cuts, delays }, t) => {
        const seen = newSeen()
        const srv = makeServer((rec, i) => sseReply(sseText(rEvents(sc.script[i] ?? R_FALLBACK, i)), cuts, delays, { latency: sc.latency }))
        const want = rModel(sc)
        const r = R.responses(buildOptions(sc, { ...lib.chat, ...R }, seen, { fetch: srv.fetch, onFinish: (s) => { seen.finish.push(s) } }))
        const [input, steps, usage, totalUsage, text] = await Promise.all([outcome(r.input), outcome(r.steps), outcome(r.usage), outcome(r.totalUsage), collect(r.textStream)])
        for (const p of [input, steps, usage, totalUsage]) ok(p.ok, () => `responses failed: ${show(p.error)}`)
        t.cls(`requests=${Math.min(want.requests.length, 5)}`, sc.hooks && 'hooks', sc.prepare && 'prepare', want.exec.length > 0 && 'executed', sc.script.at(-1).status)
        t.nontrivial(want.requests.length >= 2)
        eq(srv.log.length, want.requests.length, 'number of requests')
        srv.log.forEach((q, i) => {
          eq({ input: dropOutId(q.json.input), model: q.json.model, tool_choice: q.json.tool_choice }, { ...want.requests[i], input: dropOutId(want.requests[i].input) }, `request ${i}`)
          eq({ stream: q.json.stream, tools: q.json.tools?.map(x => [x.type, x.name]) }, { stream: true, tools: sc.tools?.map(x => ['function', x.name]) }, `request ${i} settings`)
        })
        eq(dropOutId(input.value), dropOutId(want.history), 'input promise')
        const ids = input.value.filter(x => x?.type === 'function_call_output' && x.status === 'completed').map(x => x.id)
        ok(ids.every(x => typeof x === 'string' && x !== '') && new Set(ids).size === ids.length, () => `function outputs need distinct ids: ${show(ids)}`)
        eq(steps.value, want.steps, 'steps promise')
        eq(seen.stepFinish, want.steps, 'onStepFinish calls')
        eq(seen.finish, [want.steps.at(-1)], 'onFinish calls')
        eq(totalUsage.value, want.totalUsage, 'totalUsage promise')
        eq(usage.value, want.usage, 'usage promise')
        ok(text.end === 'closed', 'textStream must close')
        eq(byId(seen.exec).map(({ tool, input: i, toolCallId }) => ({ tool, input: i, toolCallId })), byId(want.exec), 'tool executions')
        if (sc.stop) eq(seen.stops.map(s => ({ ...s, input: dropOutId(s.input) })), want.stops.map(s => ({ ...s, input: dropOutId(s.input) })), 'stop condition evaluations')
        if (sc.prepare) eq(seen.prepares.map(p => ({ ...p, input: dropOutId(p.input) })), want.prepares.map(p => ({ ...p, input: dropOutId(p.input) })), 'step preparation calls')
      },
    })),
  }
}
