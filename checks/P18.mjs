import { apart, clone, collect, cutsArb, eq, fc, frac, jsonVal, key, makeServer, mkThrown, ok, outcome, plain, same, show, sized, splitText, sseReply, sseText, text, thrown } from '../lib/kit.mjs'
import { objectSchema } from '../lib/endpoints.mjs'

// may `part` be an earlier state of `whole`? at most one place - the one still being written - may differ
const prefix = (part, whole) => {
  if (part === undefined) return true // a key whose value has not begun
  if (same(part, whole)) return true
  if (typeof part === 'string' && typeof whole === 'string') return whole.startsWith(part)
  if (typeof part === 'number' && typeof whole === 'number') return true // digits still arriving
  if (part === null || whole === null || typeof part !== 'object' || typeof whole !== 'object' || Array.isArray(part) !== Array.isArray(whole)) return false
  if (Array.isArray(part)) return part.length <= whole.length && part.every((x, i) => i === part.length - 1 ? prefix(x, whole[i]) : same(x, whole[i]))
  const ks = Object.keys(part).filter(k => part[k] !== undefined) // absent: a key whose value has not begun
  if (!ks.every(k => Object.hasOwn(whole, k))) return false
  const open = ks.filter(k => !same(part[k], whole[k]))
  return open.length <= 1 && open.every(k => prefix(part[k], whole[k]))
}
// texts that a JSON scanner may trip over
const tricky = () => fc.constantFrom('//', '/* c */', 'http://x.y', '# no', '"', '\\', '\\\\"', '{"elements":[1]}', '[', ']', '}', ',', ':', '\n', '\u2028', '\ud83d\ude00', 'true', '-', '1e5', 'é', '\u0000', '```')
const val = () => fc.oneof({ weight: 3, arbitrary: jsonVal(2) }, { weight: 1, arbitrary: tricky() }, { weight: 1, arbitrary: fc.dictionary(key(), tricky(), { maxKeys: 3, noNullPrototype: true }) }, { weight: 1, arbitrary: fc.array(fc.oneof(tricky(), fc.integer(), fc.constant({}), fc.constant([])), { maxLength: 3 }) }).filter(plain)
const object = minKeys => fc.dictionary(key(), val(), { minKeys, maxKeys: 4, noNullPrototype: true }).filter(apart)
const render = () => fc.record({ indent: fc.constantFrom(0, 0, 1, '\t'), lead: fc.constantFrom('', '', '\n', '  '), trail: fc.constantFrom('', '', '\n', ' '), escape: fc.boolean() })
const write = (v, r) => {
  const s = `${r.lead}${JSON.stringify(v, null, r.indent)}${r.trail}`
  // the same JSON with every non-ASCII character escaped
  return r.escape ? [...s].map(c => c.codePointAt(0) < 128 ? c : [...Array(c.length).keys()].map(i => `\\u${c.charCodeAt(i).toString(16).padStart(4, '0')}`).join('')).join('') : s
}
const everyChar = s => Array.from(s)
const source = (pieces, end) => new ReadableStream({
  start(c) { for (const p of pieces) c.enqueue(p); if (!end) c.close() },
  pull(c) { if (end) c.error(end) },
})
const cutting = () => fc.tuple(fc.oneof({ weight: 3, arbitrary: cutsArb(14).map(cuts => ({ cuts })) }, { weight: 2, arbitrary: fc.constant({ every: true }) }, { weight: 1, arbitrary: fc.constant({ cuts: [] }) }), fc.integer({ min: 0, max: 2 })).map(([c, n]) => ({ ...c, blank: n === 2 }))
// as servers do: sometimes the first piece, and some later one, is empty
const pieces = (s, c) => { const p = c.every ? everyChar(s) : splitText(s, c.cuts); return c.blank ? ['', ...p.slice(0, 2), '', ...p.slice(2)] : p }

export default ({ lib }) => {
  const X = lib.xsai
  const partials = (chunks, whole, label) => {
    let last
    chunks.forEach((p, i) => {
      ok(prefix(p, whole), () => `${label}: partial object ${i} is not a prefix of the final one: ${show(p)} vs ${show(whole)}`)
      if (i > 0) ok(prefix(last, p), () => `${label}: partial object ${i} takes back data: ${show(last)} then ${show(p)}`)
      last = p
    })
    if (Object.keys(whole).length > 0) eq(last, whole, `${label}: the last partial object`)
  }
  // collects and keeps a copy of every value at the time it was delivered
  const gather = async (s) => {
    const copies = []
    const r = await collect(s, { onChunk: (v) => { copies.push(clone(v)) } })
    eq(r.chunks, copies, 'a delivered value must not change afterwards')
    return r
  }
  const baseOpts = { baseURL: 'https://h.example/v1', apiKey: 'k', model: 'm', messages: [{ role: 'user', content: 'q' }], schema: objectSchema }
  return {
    rule: 'A case is a JSON document - a list of elements or an object, with text that trips scanners (comments, quotes, brackets, escapes) - rendered with generated white space and escaping and cut at generated places or at every character, fed directly, through a streamed generation, or from a source that fails midway. Non-trivial: the text is cut. Oracle: exact list of elements; prefix relation between partial, later and final objects.',
    assumptions: ['a number that is still arriving may show fewer digits', 'the reply is complete JSON (a truncated reply is a recorded finding)', 'no numbers in exponent notation (a recorded finding)', 'in object mode no key extends an earlier key of the same object (a recorded finding)'],
    subs: [
      {
        name: 'elements', runs: 2500,
        arb: () => fc.record({ list: sized(fc.array(val(), { maxLength: 6 }), fc.array(val(), { minLength: 12, maxLength: 60 })), extra: fc.constantFrom('none', 'none', 'before', 'after'), r: render(), c: cutting() }),
        check: async ({ list, extra, r, c }, t) => {
          const doc = { ...(extra === 'before' ? { note: 'x' } : {}), elements: list, ...(extra === 'after' ? { note: [1, { elements: [9] }] } : {}) }
          const p = pieces(write(doc, r), c)
          t.nontrivial(p.length > 1)
          t.cls(`elements=${list.length}`, c.every && 'every-character')
          const got = await gather(X.toElementStream(source(p)))
          ok(got.end === 'closed', () => `the stream ended ${got.end}: ${show(got.error)}`)
          eq(got.chunks, list, 'elements')
        },
      },
      {
        name: 'partial', runs: 2500,
        arb: () => fc.record({ obj: sized(object(0), fc.dictionary(key(), val(), { minKeys: 5, maxKeys: 20, noNullPrototype: true }).filter(apart)), r: render(), c: cutting() }),
        check: async ({ obj, r, c }, t) => {
          const p = pieces(write(obj, r), c)
          t.nontrivial(p.length > 1 && Object.keys(obj).length > 0)
          t.cls(`keys=${Object.keys(obj).length}`, c.every && 'every-character')
          const got = await gather(X.toPartialObjectStream(source(p)))
          ok(got.end === 'closed', () => `the stream ended ${got.end}: ${show(got.error)}`)
          partials(got.chunks, obj, 'toPartialObjectStream')
        },
      },
      {
        name: 'streamObject', runs: 1500,
        arb: () => fc.record({ out: fc.constantFrom('object', 'array'), obj: object(1), list: sized(fc.array(val(), { maxLength: 5 }), fc.array(val(), { minLength: 12, maxLength: 40 })), r: render(), c: cutting(), bytes: cutsArb(4), tools: fc.boolean(), gap: fc.constantFrom(0, 2) }),
        check: async ({ out, obj, list, r, c, bytes, tools, gap }, t) => {
          const body = write(out === 'array' ? { elements: list } : obj, r)
          const p = pieces(body, c)
          t.nontrivial(p.length > 1); t.cls(out, tools && 'after-tools')
          const srv = makeServer((_, i) => tools && i === 0
            ? sseReply(sseText([{ choices: [{ index: 0, delta: { tool_calls: [{ index: 0, id: 'c', type: 'function', function: { name: 'calc', arguments: '{"a":1}' } }] } }] }, { choices: [{ index: 0, delta: {}, finish_reason: 'tool_calls' }] }]), bytes)
            : sseReply(sseText([...p.map(content => ({ choices: [{ index: 0, delta: { content } }] })), { choices: [{ index: 0, delta: {}, finish_reason: 'stop' }] }]), bytes, gap ? [gap] : []))
          const s = await X.streamObject({ ...baseOpts, output: out, fetch: srv.fetch, ...(tools ? { stopWhen: () => false, tools: [{ type: 'function', function: { name: 'calc', parameters: {} }, execute: () => 'ok' }] } : {}) })
          const [got, txt, steps] = await Promise.all([gather(out === 'array' ? s.elementStream : s.partialObjectStream), collect(s.textStream), outcome(s.steps)])
          ok(steps.ok, () => `failed: ${show(steps.error)}`)
          ok(got.end === 'closed' && txt.end === 'closed', () => `ended ${got.end}/${txt.end}: ${show(got.error)}`)
          eq(txt.chunks.join(''), body, 'text stream')
          if (out === 'array') eq(got.chunks, list, 'elements')
          else partials(got.chunks, obj, 'partialObjectStream')
        },
      },
      {
        name: 'no-text', runs: 400,
        arb: () => fc.record({ out: fc.constantFrom('object', 'array'), deltas: fc.array(fc.constantFrom({ content: '' }, { role: 'assistant' }, { reasoning: 'hm' }, { reasoning_content: 'hm' }, { content: null }, {}), { maxLength: 4 }), bytes: cutsArb(4), rounds: fc.integer({ min: 0, max: 2 }), finish: fc.constantFrom('stop', 'length', 'content_filter') }),
        check: async ({ out, deltas, bytes, rounds, finish }, t) => {
          t.nontrivial(deltas.length > 0 || rounds > 0); t.cls(out, `rounds=${rounds}`)
          const srv = makeServer((_, i) => i < rounds
            ? sseReply(sseText([{ choices: [{ index: 0, delta: { tool_calls: [{ index: 0, id: 'c', type: 'function', function: { name: 'calc', arguments: '{}' } }] } }] }, { choices: [{ index: 0, delta: {}, finish_reason: 'tool_calls' }] }]), bytes)
            : sseReply(sseText([...deltas.map(delta => ({ choices: [{ index: 0, delta }] })), { choices: [{ index: 0, delta: {}, finish_reason: finish }] }]), bytes))
          const s = await X.streamObject({ ...baseOpts, output: out, fetch: srv.fetch, ...(rounds ? { stopWhen: () => false, tools: [{ type: 'function', function: { name: 'calc', parameters: {} }, execute: () => 'ok' }] } : {}) })
          const [got, txt, steps] = await Promise.all([gather(out === 'array' ? s.elementStream : s.partialObjectStream), collect(s.textStream), outcome(s.steps)])
          eq(srv.log.length, rounds + 1, 'requests')
          ok(steps.ok, () => `the steps failed: ${show(steps.error)}`)
          for (const [name, r] of [['object', got], ['text', txt]]) {
            ok(r.end === 'errored', () => `the ${name} stream of a reply without text ended ${r.end}`)
            eq([r.error?.name, r.error?.reason], ['InvalidResponseError', 'empty_body'], `the error of the ${name} stream`)
            eq(r.chunks.filter(x => x !== '' || name !== 'text'), [], `what the ${name} stream gave`)
          }
        },
      },
      {
        name: 'failing-source', runs: 1200,
        arb: () => fc.record({ out: fc.constantFrom('object', 'array'), obj: object(1), list: fc.array(val(), { maxLength: 5 }), r: render(), c: cutting(), keep: frac(1), what: thrown() }),
        check: async ({ out, obj, list, r, c, keep, what }, t) => {
          t.nontrivial(); t.cls(out)
          const p = pieces(write(out === 'array' ? { elements: list } : obj, r), c)
          const boom = mkThrown(what)
          const part = p.slice(0, Math.floor(keep * p.length))
          const src = async function* () { for (const x of part) yield x; throw boom }
          const it = src()
          const s = new ReadableStream({ async pull(ctl) { try { const { value } = await it.next(); ctl.enqueue(value) } catch (e) { ctl.error(e) } } })
          const got = await gather(out === 'array' ? X.toElementStream(s) : X.toPartialObjectStream(s))
          ok(got.end === 'errored' && got.error === boom, () => `a failing source ended ${got.end} ${show(got.error)}`)
          if (out === 'array') eq(got.chunks, list.slice(0, got.chunks.length), 'elements before the failure')
          else got.chunks.forEach((x, i) => ok(prefix(x, obj), () => `partial object ${i} before the failure is not a prefix: ${show(x)}`))
        },
      },
    ],
    findings: {
      // while the key "cityName" is still arriving as "city", the completed value of the key "city" disappears
      keyprefix: async () => {
        const got = await collect(X.toPartialObjectStream(source(['{"city":"Rome"', ',"city', 'Name":"x"}'])))
        return got.chunks.some(o => o.city !== 'Rome')
      },
      // 1e-7 at the end of the text so far is read as two elements by the parser in use
      exponent: async () => {
        const got = await collect(X.toElementStream(source(['{"elements":[1e-7', ',2]}'])))
        return !same(got.chunks, [1e-7, 2])
      },
      // an element that was cut off by the end of the reply is delivered as if it were complete
      truncated: async () => {
        const got = await collect(X.toElementStream(source(['{"elements":[{"a":"whole"},{"a":"cut of'])))
        return got.chunks.some(e => e?.a === 'cut of')
      },
    },
  }
}
