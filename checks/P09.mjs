import { apart, collect, cutsArb, eq, fc, jsonReply, jsonVal, key, makeServer, ok, outcome, plain, show, splitText, sseReply, sseText } from '../lib/kit.mjs'
import { objectSchema } from '../lib/endpoints.mjs'
import { buildOptions, chunkPlan, dropIndex, FALLBACK, newSeen, replyChunks, replyJSON, scenario } from '../lib/loop.mjs'

const byId = a => [...a].sort((x, y) => (x.toolCallId ?? x.id) < (y.toolCallId ?? y.id) ? -1 : 1)
// a silent assistant turn is null in a whole reply and the empty string in a streamed one
const norm = ms => dropIndex(ms).map(m => m.role === 'assistant' && (m.content === null || m.content === undefined) ? { ...m, content: '' } : m)
const exec = s => byId(s.exec).map(({ tool, input, toolCallId, messages }) => ({ tool, input, toolCallId, messages: norm(messages) }))
const nstep = s => ({ ...s, text: s.text ?? '' })

export default ({ lib }) => {
  const X = lib.xsai
  return {
    rule: 'A case is one scripted conversation (tools, hooks, step preparation, stop condition, several replies) run both ways: whole replies, and the same replies cut into stream chunks by a generated plan. Non-trivial: at least two requests. Oracle: each mode is the other\'s reference - same conversation in every request, same tool executions, steps, usage, text, reasoning and transcript.',
    subs: [{
      name: 'modes',
      runs: 3000,
      arb: () => fc.record({
        sc: scenario({ step: { parts: false } }),
        plans: fc.array(chunkPlan().map(p => ({ ...p, usage: p.usage === 'none' ? 'separate' : p.usage, close: p.close === 'none' ? 'own' : p.close })), { minLength: 1, maxLength: 3 }), cuts: cutsArb(5),
      }),
      check: async ({ sc, plans, cuts }, t) => {
        const a = newSeen()
        const b = newSeen()
        const whole = makeServer((_, i) => jsonReply(replyJSON(sc.script[i] ?? FALLBACK, i)))
        const cut = makeServer((_, i) => sseReply(sseText(replyChunks(sc.script[i] ?? FALLBACK, i, plans[i % plans.length])), cuts))
        const g = await outcome(X.generateText(buildOptions(sc, X, a, { fetch: whole.fetch })))
        const r = X.streamText(buildOptions(sc, X, b, { fetch: cut.fetch }))
        const [m, s, u, tu, text, reasoning] = await Promise.all([outcome(r.messages), outcome(r.steps), outcome(r.usage), outcome(r.totalUsage), collect(r.textStream), collect(r.reasoningTextStream)])
        ok(g.ok, () => `generateText failed: ${show(g.error)}`)
        for (const p of [m, s, u, tu]) ok(p.ok, () => `streamText failed: ${show(p.error)}`)
        t.nontrivial(whole.log.length >= 2)
        t.cls(`requests=${Math.min(5, whole.log.length)}`)
        eq(cut.log.length, whole.log.length, 'number of requests')
        whole.log.forEach((q, i) => {
          const { stream: _s1, messages: m1, ...rest1 } = q.json
          const { stream: _s2, messages: m2, ...rest2 } = cut.log[i].json
          eq(norm(m2), norm(m1), `request ${i}: conversation`)
          eq(rest2, rest1, `request ${i}: everything but the stream flag`)
        })
        eq(norm(m.value), norm(g.value.messages), 'transcript')
        eq(s.value.map(nstep), g.value.steps.map(nstep), 'steps')
        eq(tu.value, g.value.totalUsage, 'total usage')
        eq(u.value, g.value.usage, 'usage')
        eq(exec(b), exec(a), 'tool executions')
        eq(b.stepFinish.map(nstep), a.stepFinish.map(nstep), 'step callbacks')
        eq(b.hooks.map(({ at: _a, ...h }) => h).sort((x, y) => JSON.stringify(x) < JSON.stringify(y) ? -1 : 1), a.hooks.map(({ at: _a, ...h }) => h).sort((x, y) => JSON.stringify(x) < JSON.stringify(y) ? -1 : 1), 'hook calls')
        eq(text.chunks.join(''), g.value.steps.map(x => x.text ?? '').join(''), 'text')
        const last = sc.script[g.value.steps.length - 1] ?? FALLBACK
        ok(reasoning.chunks.join('').endsWith(g.value.reasoningText ?? ''), 'reasoning of the last step')
        eq(g.value.reasoningText, last.reasoning?.text, 'reasoningText')
      },
    }, {
      name: 'objects',
      runs: 1500,
      arb: () => fc.record({ out: fc.constantFrom('object', 'array'), obj: fc.dictionary(key(), jsonVal(2), { maxKeys: 4, noNullPrototype: true }).filter(v => plain(v) && apart(v)), list: fc.array(jsonVal(2).filter(plain), { maxLength: 5 }), textCuts: cutsArb(10), cuts: cutsArb(4), indent: fc.constantFrom(0, 0, 2) }),
      check: async ({ out, obj, list, textCuts, cuts, indent }, t) => {
        const body = JSON.stringify(out === 'array' ? { elements: list } : obj, null, indent)
        const opts = { baseURL: 'https://h.example/v1', apiKey: 'k', model: 'm', messages: [{ role: 'user', content: 'q' }], schema: objectSchema, output: out }
        const whole = makeServer(() => jsonReply({ choices: [{ index: 0, finish_reason: 'stop', message: { role: 'assistant', content: body } }], usage: { prompt_tokens: 1, completion_tokens: 1, total_tokens: 2 } }))
        const cut = makeServer(() => sseReply(sseText([...splitText(body, textCuts).map(content => ({ choices: [{ index: 0, delta: { content } }] })), { choices: [{ index: 0, delta: {}, finish_reason: 'stop' }], usage: { prompt_tokens: 1, completion_tokens: 1, total_tokens: 2 } }]), cuts))
        const g = await outcome(X.generateObject({ ...opts, fetch: whole.fetch }))
        ok(g.ok, () => `generateObject failed: ${show(g.error)}`)
        const r = await X.streamObject({ ...opts, fetch: cut.fetch })
        const [s, txt, m] = await Promise.all([collect(r.elementStream ?? r.partialObjectStream), collect(r.textStream), outcome(r.messages)])
        t.nontrivial(textCuts.length > 0)
        t.cls(out)
        ok(s.end === 'closed', () => `the object stream ended ${s.end}: ${show(s.error)}`)
        eq({ ...cut.log[0].json, stream: 0 }, { ...whole.log[0].json, stream: 0 }, 'request')
        eq(txt.chunks.join(''), body, 'text')
        eq(m.value, g.value.messages, 'transcript')
        if (out === 'array') eq(s.chunks, g.value.object, 'elements')
        else if (Object.keys(obj).length > 0) eq(s.chunks.at(-1), g.value.object, 'last partial object')
      },
    }],
  }
}
