import { env } from '../lib/env.mjs'
import { eq, fc, frac, jsonReply, makeServer, mkThrown, ok, outcome, show, thrown } from '../lib/kit.mjs'
import { objectSchema } from '../lib/endpoints.mjs'
import { buildOptions, FALLBACK, longRun, marathon, modelLoop, newSeen, replyJSON, scenario } from '../lib/loop.mjs'

// calls of one step run in parallel, so in any order; ids may repeat
const byId = (a, k = x => JSON.stringify([x.toolCallId, x.messages?.length, x.tool, x.input])) => [...a].sort((x, y) => k(x) < k(y) ? -1 : 1)

export default ({ lib }) => {
  const X = lib.xsai
  return {
    rule: 'A case is a whole multi-step generation: starting messages, tool behaviours (results, throws, delays, validation), hooks, step preparation, a stop condition and a scripted model server. Non-trivial: at least one tool call and two requests. Oracle: a reference model of the loop compared on every request body, the returned transcript, steps, usage and callbacks.',
    subs: [['loop', 5000, () => scenario({ step: { ids: true } })], ['long', 240, () => scenario(longRun())], ['marathon', 24, marathon]].map(([name, runs, arb]) => ({
      name, runs, arb,
      check: async (sc, t) => {
        const seen = newSeen()
        const srv = makeServer((rec, i) => jsonReply(replyJSON(sc.script[i] ?? FALLBACK, i), { latency: sc.latency }))
        const want = modelLoop(sc, 'generate')
        const r = await outcome(X.generateText(buildOptions(sc, X, seen, { fetch: srv.fetch })))
        ok(r.ok, () => `generateText rejected: ${show(r.error)}`)
        const got = r.value
        t.cls(`requests=${Math.min(want.requests.length, 5)}`, sc.hooks && 'hooks', sc.prepare && 'prepare', want.exec.length > 0 && 'executed')
        t.nontrivial(want.requests.length >= 2 && want.steps.some(s => s.toolCalls.length > 0))
        eq(srv.log.length, want.requests.length, 'number of requests')
        srv.log.forEach((q, i) => {
          eq({ messages: q.json.messages, model: q.json.model, tool_choice: q.json.tool_choice }, want.requests[i], `request ${i}`)
          eq({ stream: q.json.stream, temperature: q.json.temperature, tools: q.json.tools?.map(x => x.function.name) }, { stream: false, temperature: sc.temperature, tools: sc.tools?.map(x => x.name) }, `request ${i} settings`)
        })
        eq(got.messages, want.history, 'returned messages')
        const fix = s => ({ ...s, text: s.text ?? undefined })
        eq(got.steps.map(fix), want.steps.map(fix), 'returned steps')
        const last = want.steps.at(-1)
        eq({ finishReason: got.finishReason, text: got.text ?? undefined, toolCalls: got.toolCalls, toolResults: got.toolResults, usage: got.usage, totalUsage: got.totalUsage, reasoningText: got.reasoningText }, { finishReason: last.finishReason, text: last.text ?? undefined, toolCalls: last.toolCalls, toolResults: last.toolResults, usage: last.usage, totalUsage: want.totalUsage, reasoningText: want.lastReasoning }, 'result fields')
        eq(seen.stepFinish.map(fix), want.steps.map(fix), 'onStepFinish calls')
        eq(byId(seen.exec).map(({ tool, input, toolCallId, messages }) => ({ tool, input, toolCallId, messages })), byId(want.exec), 'tool executions')
        if (sc.stop) eq(seen.stops.map(s => ({ ...s, step: fix(s.step), steps: s.steps.map(fix) })), want.stops.map(s => ({ ...s, step: fix(s.step), steps: s.steps.map(fix) })), 'stop condition evaluations')
      },
    })).concat([{
      // the loop waits for its callbacks, and a callback that fails ends it with exactly its error
      name: 'callbacks', runs: 2400,
      arb: () => fc.record({
        sc: scenario({ step: { parts: false }, prepare: fc.constant(undefined), stop: fc.integer({ min: 1, max: 6 }).map(n => ({ k: 'count', n })) }),
        entry: fc.constantFrom('generateText', 'generateText', 'telemetry', 'generateObject'),
        which: fc.constantFrom('onStepFinish', 'onStepFinish', 'prepareStep', 'stopWhen', 'none'),
        at: frac(), async: fc.boolean(), wait: fc.integer({ min: 0, max: 40 }), thrown: thrown(),
      }),
      check: async ({ sc, entry, which, at, async, wait, thrown: k }, t) => {
        const want = modelLoop(sc, 'generate')
        const n = want.requests.length
        const nth = Math.floor(at * n)
        const log = []
        const boom = mkThrown(k)
        const srv = makeServer((rec, i) => { log.push(`request ${i}`); return jsonReply(replyJSON(sc.script[i] ?? FALLBACK, i), { latency: sc.latency }) })
        const o = buildOptions(sc, X, newSeen(), { fetch: srv.fetch })
        const count = {}
        const callback = (name, then) => (a) => {
          const i = count[name] = (count[name] ?? -1) + 1
          const end = () => {
            log.push(`${name} ${i}`)
            if (which === name && i === nth) throw boom
            return then(a)
          }
          if (name === 'stopWhen' || !async) return end()
          return env.sleep(wait).then(end)
        }
        o.stopWhen = callback('stopWhen', o.stopWhen)
        o.prepareStep = callback('prepareStep', () => ({}))
        o.onStepFinish = callback('onStepFinish', () => {})
        if (entry === 'generateObject') o.schema = objectSchema
        const run = { generateText: X.generateText, telemetry: x => lib.telemetry.generateText({ ...x, telemetry: {} }), generateObject: X.generateObject }[entry]
        const r = await outcome(run(o))
        const all = []
        for (let i = 0; i < n; i++) all.push(`prepareStep ${i}`, `request ${i}`, `stopWhen ${i}`, `onStepFinish ${i}`)
        const fails = which !== 'none'
        const due = fails ? all.slice(0, all.indexOf(`${which} ${nth}`) + 1) : all
        t.cls(entry, which, async && 'async'); t.nontrivial(fails && n >= 2)
        await env.sleep(500)
        eq(log, due, 'callbacks and requests, in order')
        if (fails) ok(!r.ok && Object.is(r.error, boom), () => `${entry} with a failing ${which} ended with ${show(r.ok ? r.value : r.error)}`)
        else if (entry !== 'generateObject') ok(r.ok, () => `${entry} failed: ${show(r.error)}`)
      },
    }]),
  }
}
