import { collect, cutsArb, eq, fc, makeServer, ok, outcome, show, sseReply, sseText } from '../lib/kit.mjs'
import { buildOptions, chunkPlan, dropIndex, FALLBACK, longRun, marathon, modelLoop, newSeen, replyChunks, scenario } from '../lib/loop.mjs'

// calls of one step run in parallel, so in any order; ids may repeat
const byId = (a, k = x => JSON.stringify([x.toolCallId, x.messages?.length, x.tool, x.input])) => [...a].sort((x, y) => k(x) < k(y) ? -1 : 1)

export default ({ lib }) => {
  const X = lib.xsai
  return {
    rule: 'A case is a whole multi-step streamed generation: starting messages, tool behaviours, hooks, step preparation, a stop condition, a scripted model and a plan of how each reply is cut into chunks (argument pieces, interleaving, gaps in indexes, batches, text/reasoning/tool calls sharing chunks, usage placement) and bytes. Non-trivial: at least one tool call whose reply is followed by another request. Oracle: a reference model of the loop compared on every request body, the transcript, steps, usage and callbacks.',
    subs: [['loop', 4500, () => scenario({ step: { parts: false, ids: true } })], ['long', 240, () => scenario(longRun())], ['marathon', 24, marathon]].map(([name, runs, arb]) => ({
      name, runs,
      arb: () => fc.record({ sc: arb(), plans: fc.array(chunkPlan(), { minLength: 1, maxLength: 3 }), cuts: cutsArb(6), delays: fc.array(fc.constantFrom(0, 0, 2), { maxLength: 3 }) }),
      check: async ({ sc, plans, cuts, delays }, t) => {
        const seen = newSeen()
        const srv = makeServer((rec, i) => sseReply(sseText(replyChunks(sc.script[i] ?? FALLBACK, i, plans[i % plans.length])), cuts, delays, { latency: sc.latency }))
        const want = modelLoop(sc, 'stream', plans)
        const r = X.streamText(buildOptions(sc, X, seen, { fetch: srv.fetch, onFinish: (s) => { seen.finish.push(s) } }))
        const [messages, steps, usage, totalUsage, text, reasoning] = await Promise.all([outcome(r.messages), outcome(r.steps), outcome(r.usage), outcome(r.totalUsage), collect(r.textStream), collect(r.reasoningTextStream)])
        for (const p of [messages, steps, usage, totalUsage]) ok(p.ok, () => `streamText failed: ${show(p.error)}`)
        t.cls(`requests=${Math.min(want.requests.length, 5)}`, sc.hooks && 'hooks', sc.prepare && 'prepare', want.exec.length > 0 && 'executed', plans.some(p => p.stride > 1 || p.base > 0) && 'gaps')
        t.nontrivial(want.requests.length >= 2 && want.steps.some(s => s.toolCalls.length > 0))
        eq(srv.log.length, want.requests.length, 'number of requests')
        srv.log.forEach((q, i) => {
          eq({ messages: dropIndex(q.json.messages), model: q.json.model, tool_choice: q.json.tool_choice }, { ...want.requests[i], messages: dropIndex(want.requests[i].messages) }, `request ${i}`)
          eq({ stream: q.json.stream, temperature: q.json.temperature, tools: q.json.tools?.map(x => x.function.name) }, { stream: true, temperature: sc.temperature, tools: sc.tools?.map(x => x.name) }, `request ${i} settings`)
        })
        eq(dropIndex(messages.value), dropIndex(want.history), 'messages promise')
        eq(steps.value, want.steps, 'steps promise')
        eq(seen.stepFinish, want.steps, 'onStepFinish calls')
        eq(seen.finish, [want.steps.at(-1)], 'onFinish calls')
        eq(totalUsage.value, want.totalUsage, 'totalUsage promise')
        eq(usage.value, want.steps.at(-1).usage, 'usage promise')
        eq([text.end, text.chunks.join('')], ['closed', want.steps.map(s => s.text).join('')], 'textStream')
        eq([reasoning.end, reasoning.chunks.join('')], ['closed', want.steps.map((_, i) => (sc.script[i] ?? FALLBACK).reasoning?.text ?? '').join('')], 'reasoningTextStream')
        eq(byId(seen.exec).map(({ tool, input, toolCallId, messages: m }) => ({ tool, input, toolCallId, messages: dropIndex(m) })), byId(want.exec).map(e => ({ ...e, messages: dropIndex(e.messages) })), 'tool executions')
      },
    })),
  }
}
