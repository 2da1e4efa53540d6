import { eq, fc, jsonReply, json, makeServer, ok, outcome, show, sseReply, sseText, text } from '../lib/kit.mjs'
import { buildOptions, callArgs, chunkPlan, dropIndex, FALLBACK, hooksSpec, modelTool, newSeen, replyChunks, replyJSON, TOOL_NAMES, toolsSpec, wireContent } from '../lib/loop.mjs'
import { R_FALLBACK, rEvents, rWrap } from '../lib/rloop.mjs'

const KINDS = ['error', 'fparts', 'echo', 'object', 'parts', 'rparts', 'tparts', 'iparts', 'aparts', 'mixed', 'array', 'emptyStr', 'big', 'huge', 'nullPart', 'unicode', 'throw', 'throwStr', 'throwObj', 'throwType', 'throwUndef']
const VALIDATES = ['none', 'none', 'pass', 'wrap', 'falsy', 'nil', 'fail', 'asyncFail', 'needA', 'throw', 'asyncWrap']

export default ({ lib }) => {
  const X = lib.xsai
  const S = lib.shared
  const arb = () => fc.record({
    tools: fc.option(toolsSpec({ kinds: KINDS, validates: VALIDATES, min: 0, max: 4 }), { nil: undefined, freq: 10 }),
    call: fc.record({ name: fc.oneof({ weight: 9, arbitrary: fc.constantFrom(...TOOL_NAMES) }, { weight: 1, arbitrary: fc.constantFrom('ghost', '', 'Weather', 'toString', 'weather2', 'calculate', 'my_search', 'weath') }), args: fc.oneof({ weight: 4, arbitrary: callArgs() }, { weight: 1, arbitrary: text(3) }, { weight: 1, arbitrary: fc.constantFrom('', '   ', '\n\t', '{}', 'true', '0', '""', '[]', '{"a":{"a":[]}}', '{"__proto__":{"x":1}}') }) }),
    hooks: fc.option(hooksSpec({ pre: ['badId', 'badIdResult'], post: ['badId'], max: 3 }), { nil: undefined }),
    only: fc.constantFrom('both', 'both', 'pre', 'post'),
    filler: fc.oneof({ weight: 12, arbitrary: fc.constant(0) }, { weight: 1, arbitrary: fc.integer({ min: 3, max: 40 }) }),
    plan: chunkPlan(),
  }).map(({ filler, ...c }) => ({ ...c, tools: c.tools && filler > 0 ? [...Array.from({ length: filler }, (_, i) => ({ name: `tool_${i}`, kind: 'echo', sync: true, delay: 0, validate: 'none' })), ...c.tools] : c.tools }))
  const judge = async (c, how, t) => {
    const resp = how === 'responses'
    const st = { text: null, parts: null, reasoning: null, calls: [c.call], finish: 'tool_calls', usage: { p: 1, c: 1, extra: 0 } }
    const rst = { items: [{ k: 'call', ...c.call }], status: 'completed', usage: null, cuts: c.plan.argCuts, noise: false }
    const seen = newSeen()
    const srv = makeServer((_, i) => i === 0
      ? resp ? sseReply(sseText(rEvents(rst, 0))) : how === 'stream' ? sseReply(sseText(replyChunks(st, 0, c.plan))) : jsonReply(replyJSON(st, 0))
      : resp ? sseReply(sseText(rEvents(R_FALLBACK, i))) : how === 'stream' ? sseReply(sseText(replyChunks(FALLBACK, i, c.plan))) : jsonReply(replyJSON(FALLBACK, i)))
    const sc = { model: 'm', tools: c.tools, stop: { k: 'or', c: [] }, hooks: c.hooks, ...(resp ? { input: 'q' } : { messages: [{ role: 'user', content: 'q' }] }) }
    const o = buildOptions(sc, X, seen, { fetch: srv.fetch })
    const hooks = c.hooks && { pre: c.only === 'post' ? {} : c.hooks.pre, post: c.only === 'pre' ? {} : c.hooks.post }
    if (c.only === 'post') delete o.preToolCall
    if (c.only === 'pre') delete o.postToolCall
    let got
    if (how === 'generate') { got = await outcome(X.generateText(o).then(r => r.steps)) }
    else {
      const r = resp ? lib.responses.responses(o) : X.streamText(o)
      got = await outcome(r.steps)
    }
    const want = modelTool({ id: 'call_0_0', ...c.call }, c.tools, hooks, resp ? { wrap: rWrap } : { wrap: wireContent })
    t.cls(how, want.reject ? 'rejected' : want.completionToolResult.isError ? 'error' : 'value', want.executed && 'executed', hooks && 'hooks')
    t.nontrivial(want.executed || !!hooks || want.completionToolResult?.isError)
    eq(seen.exec.map(e => ({ tool: e.tool, input: e.input, id: e.toolCallId })), want.executed ? [{ tool: want.completionToolCall?.toolName ?? seen.exec[0]?.tool, input: want.input, id: 'call_0_0' }] : [], 'executions')
    if (want.reject) {
      ok(!got.ok && S.InvalidToolCallError.isInstance(got.error) && got.error.reason === want.reject, () => `a hook that changes the call id must fail the call: ${show(got, 500)}`)
      eq(srv.log.length, 1, 'requests')
      return
    }
    ok(got.ok, () => `the call failed: ${show(got.error)}`)
    eq(got.value[0].toolCalls, [want.completionToolCall], 'recorded tool call')
    eq(got.value[0].toolResults, [want.completionToolResult], 'recorded tool result')
    eq(srv.log.length, 2, 'requests')
    // exactly one result message, bearing the call id, with the content
    if (resp) {
      const outs = srv.log[1].json.input.filter(x => x.type === 'function_call_output')
      eq(outs.map(({ id: _i, ...x }) => x), [{ type: 'function_call_output', status: 'completed', call_id: 'call_0_0', output: json(want.content) }], 'function call outputs sent back')
    }
    else {
      eq(dropIndex(srv.log[1].json.messages).filter(m => m.role === 'tool'), [{ role: 'tool', tool_call_id: 'call_0_0', content: json(want.content) }], 'tool messages sent back')
    }
    const pres = seen.hooks.filter(h => h.hook === 'pre')
    const posts = seen.hooks.filter(h => h.hook === 'post')
    if (hooks && c.only !== 'post') eq(pres.map(h => [h.call, h.id]), [[{ args: c.call.args, toolCallId: 'call_0_0', toolCallType: 'function', toolName: c.call.name }, 'call_0_0']], 'hook before the call')
    if (hooks && c.only !== 'pre') eq(posts.map(h => [h.res, h.id]), want.executed ? [[want.beforePost, 'call_0_0']] : [], 'hook after the call')
  }
  return {
    rule: 'A case is one tool call (any name, any argument text) against a generated tool set (results of every kind, every way of throwing, every validator outcome, synchronous or not) and hooks (replace the call, rename it, supply or rewrite the result, throw, change the call id). Non-trivial: the tool runs, a hook is set, or the call errs. Oracle: reference model of one call, observed through what is executed, recorded and sent back.',
    subs: [
      ...['generate', 'stream', 'responses'].map(how => ({ name: how, runs: 3000, arb, check: (c, t) => judge(c, how, t) })),
      {
        // a call the model did not finish: no name, or no arguments at all
        name: 'unfinished', runs: 900,
        arb: () => fc.record({ how: fc.constantFrom('generate', 'stream'), lacks: fc.constantFrom('name', 'arguments', 'both'), as: fc.constantFrom('absent', 'null'), before: fc.nat({ max: 2 }), after: fc.nat({ max: 2 }), hook: fc.boolean(), args: callArgs(), plan: chunkPlan() }),
        check: async ({ how, lacks, as, before, after, hook, args, plan }, t) => {
          const gone = as === 'null' ? null : undefined
          const n = before + 1 + after
          const wire = Array.from({ length: n }, (_, i) => ({ id: `c${i}`, type: 'function', function: i === before ? { name: lacks === 'arguments' ? 'w' : gone, arguments: lacks === 'name' ? args : gone } : { name: 'w', arguments: '{}' } }))
          const runs = []
          const tool = { type: 'function', function: { name: 'w', parameters: { type: 'object', properties: {} } }, execute: (_, o) => { runs.push(o.toolCallId); return 'ran' } }
          const fallback = { text: 'end', parts: null, reasoning: null, calls: [], finish: 'stop', usage: null }
          const srv = makeServer((_, i) => i > 0
            ? how === 'stream' ? sseReply(sseText(replyChunks(FALLBACK, i, plan))) : jsonReply(replyJSON(fallback, i))
            : how === 'stream'
              ? sseReply(sseText([...wire.map((c, index) => ({ choices: [{ index: 0, delta: { tool_calls: [{ index, ...c }] }, finish_reason: null }] })), { choices: [{ index: 0, delta: {}, finish_reason: 'tool_calls' }] }]))
              : jsonReply({ choices: [{ index: 0, finish_reason: 'tool_calls', message: { role: 'assistant', content: null, tool_calls: wire } }], usage: { prompt_tokens: 1, completion_tokens: 1, total_tokens: 2 } }))
          const o = { baseURL: 'http://h/', model: 'm', messages: [{ role: 'user', content: 'q' }], fetch: srv.fetch, tools: [tool], stopWhen: X.or(), ...(hook ? { preToolCall: c => c } : {}) }
          const got = how === 'stream' ? await outcome(X.streamText(o).steps) : await outcome(X.generateText(o).then(r => r.steps))
          t.cls(how, lacks); t.nontrivial()
          if (how === 'stream' && lacks === 'arguments') {
            ok(got.ok, () => `a streamed call without any argument text runs with {}: ${show(got.error)}`)
            eq(got.value[0].toolResults.map(r => [r.toolCallId, r.result, r.args]), wire.map(c => [c.id, 'ran', {}]), 'results')
            return
          }
          ok(!got.ok && S.InvalidToolCallError.isInstance(got.error), () => `a call without ${lacks} must fail the call with a typed error: ${show(got, 400)}`)
          eq(got.error.reason, lacks === 'arguments' ? 'missing_arguments' : 'missing_name', 'reason')
          eq([srv.log.length, runs.includes(`c${before}`)], [1, false], 'requests, and whether the unfinished call ran')
        },
      },
    ],
  }
}
