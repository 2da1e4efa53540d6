// Invariants of the event stream of a generation, checked over the observed history.
import { eq, fail, ok, show } from './kit.mjs'

// events: observed; opts: { resultsInCallOrder }
// returns per-step summaries: { text, reasoning, started: [{id,name,deltas}], done: [...], results: [...], usage }
export const checkEvents = (events, label = 'event stream') => {
  const steps = []
  let cur
  const at = i => `${label}, event ${i}: ${show(events[i], 300)}\n  all: ${show(events, 2500)}`
  events.forEach((e, i) => {
    if (e.type === 'step.start') {
      ok(!cur, () => `a step starts inside a step; ${at(i)}`)
      cur = { text: [], reasoning: [], tStart: 0, tDone: 0, rStart: 0, rDone: 0, started: new Map(), doneCalls: [], results: [], events: [] }
      return
    }
    ok(cur, () => `an event outside a step; ${at(i)}`)
    cur.events.push(e.type)
    switch (e.type) {
      case 'text.start': ok(++cur.tStart === 1 && cur.tDone === 0, () => `text starts twice; ${at(i)}`); return
      case 'text.delta': ok(cur.tStart === 1 && cur.tDone === 0, () => `text delta outside text; ${at(i)}`); cur.text.push(e.delta); return
      case 'text.done': ok(cur.tStart === 1 && ++cur.tDone === 1, () => `text done without start; ${at(i)}`); eq(e.content, cur.text.join(''), `${label}: text.done content vs its deltas`); return
      case 'reasoning.start': ok(++cur.rStart === 1 && cur.rDone === 0, () => `reasoning starts twice; ${at(i)}`); return
      case 'reasoning.delta': ok(cur.rStart === 1 && cur.rDone === 0, () => `reasoning delta outside reasoning; ${at(i)}`); cur.reasoning.push(e.delta); return
      case 'reasoning.done': ok(cur.rStart === 1 && ++cur.rDone === 1, () => `reasoning done without start; ${at(i)}`); eq(e.content, cur.reasoning.join(''), `${label}: reasoning.done content vs its deltas`); return
      case 'tool-call.start': ok(!cur.started.has(e.toolCallId), () => `a tool call is announced twice; ${at(i)}`); cur.started.set(e.toolCallId, { name: e.toolName, deltas: [] }); cur.last = e.toolCallId; return
      case 'tool-call.delta': ok(cur.started.size > 0 && cur.doneCalls.length === 0, () => `a tool-call delta outside a tool call; ${at(i)}`); (cur.deltas ??= []).push(e.delta); return
      case 'tool-call.done': ok(cur.started.has(e.toolCallId) && !cur.doneCalls.some(c => c.toolCallId === e.toolCallId), () => `tool-call.done without exactly one start; ${at(i)}`); ok(cur.results.length === 0, () => `tool call completed after a result; ${at(i)}`); eq(e.toolName, cur.started.get(e.toolCallId).name, `${label}: tool name at start and done`); cur.doneCalls.push(e); return
      case 'tool-result.done': ok(cur.doneCalls.some(c => c.toolCallId === e.toolCallId) && !cur.results.some(c => c.toolCallId === e.toolCallId), () => `a tool result without its completed call; ${at(i)}`); cur.results.push(e); return
      case 'step.done':
        ok(cur.tStart === cur.tDone, () => `text never done; ${at(i)}`)
        ok(cur.rStart === cur.rDone, () => `reasoning never done; ${at(i)}`)
        eq(cur.doneCalls.map(c => c.toolCallId).sort(), [...cur.started.keys()].sort(), `${label}: announced and completed tool calls`)
        cur.usage = e.usage
        steps.push(cur)
        cur = undefined
        return
      default: fail(`unknown event; ${at(i)}`)
    }
  })
  return { steps, open: cur }
}
