import { collect, eq, fc, frac, mkThrown, ok, show, sized, splitText, text, thrown } from '../lib/kit.mjs'
import { env } from '../lib/env.mjs'

const TAGS = ['think', 'think', 'reasoning', 'a', 't', 'th', 'think.', 'c++', 'a|b', '.*', '[x]', '(x', 'x$', '\\d', 'think mode', '思考', '<', '/think', 'thinkthink', '']
// pieces of input that come close to a tag
const bit = tag => fc.oneof(
  { weight: 3, arbitrary: fc.constant(`<${tag}>`) },
  { weight: 3, arbitrary: fc.constant(`</${tag}>`) },
  { weight: 2, arbitrary: fc.tuple(fc.constantFrom(`<${tag}>`, `</${tag}>`), frac(1)).map(([s, d]) => s.slice(0, Math.ceil(d * s.length))) },
  { weight: 1, arbitrary: fc.constantFrom(`<${tag.toUpperCase()}>`, `< ${tag}>`, `<${tag} >`, `<${tag}`, '<', '</', '<<', '>', '</<', `<</${tag}>`, '<thinkX>', `<${tag}/>`) },
  { weight: 4, arbitrary: fc.constantFrom('a', 'b ', ' ', '\n', 'Hello', 'c.', '漢', '😀', 'x'.repeat(30)) },
  { weight: 1, arbitrary: text(2) },
)
const input = () => fc.constantFrom(...TAGS).chain(tag => fc.record({
  tag: fc.constant(tag), bits: sized(fc.array(bit(tag), { maxLength: 10 }), fc.array(bit(tag), { minLength: 20, maxLength: 80 })),
  sep: fc.constantFrom(undefined, '\n', '', ' | ', '---', '\n\n'), start: fc.constantFrom(undefined, false, true), plain: fc.boolean(),
}))
const cutting = () => fc.oneof({ weight: 3, arbitrary: fc.array(frac(), { maxLength: 12 }).map(cuts => ({ cuts })) }, { weight: 2, arbitrary: fc.constant({ every: true }) }, { weight: 1, arbitrary: fc.constant({ cuts: [] }) })
const pieces = (s, c) => c.every ? Array.from(s) : splitText(s, c.cuts)

// the reference splitter: sections between tags, over the whole text
const sections = (s, tag, startsReasoning) => {
  const out = []
  let reasoning = startsReasoning
  let rest = s
  while (true) {
    const t = reasoning ? `</${tag}>` : `<${tag}>`
    const i = rest.indexOf(t)
    if (i === -1) { out.push({ reasoning, s: rest, open: reasoning }); return out }
    out.push({ reasoning, s: rest.slice(0, i) })
    rest = rest.slice(i + t.length)
    reasoning = !reasoning
  }
}
const join = (secs, reasoning, sep) => secs.filter(x => x.reasoning === reasoning && x.s !== '').map(x => x.s).join(sep)
// what the splitter over complete text says: a section whose end never comes is no reasoning
const batchModel = (s, tag, sep, start) => {
  const secs = sections(s, tag, !!start)
  const last = secs.at(-1)
  if (!secs.some(x => x.reasoning && !x.open)) return { reasoning: undefined, text: s }
  if (last.open) { // the tag stays where it is
    secs.pop()
    const before = secs.pop()
    secs.push({ reasoning: false, s: `${before.s}<${tag}>${last.s}` })
  }
  return { reasoning: join(secs, true, sep), text: join(secs, false, sep) }
}
const options = ({ tag, sep, start, plain }) => plain && tag === 'think' && sep === undefined && !start ? undefined : { tagName: tag, separator: sep, startWithReasoning: start }

export default ({ lib }) => {
  const { extractReasoning, extractReasoningStream } = lib.xsai
  return {
    rule: 'A case is a text assembled from tags, partial and near-miss tags, separators and arbitrary text, with a generated tag name (also with pattern characters), separator and starting mode; the streamed splitter gets it cut at generated places or at every character, with pauses, or from a source that fails. Non-trivial: at least one real tag occurs. Oracle: a reference splitter over the whole text; equality of the two splitters when every section is closed.',
    assumptions: ['in complete text a section whose end tag never comes is not reasoning, in a stream it is'],
    subs: [
      {
        name: 'complete', runs: 3000,
        arb: () => input(),
        check: async (c, t) => {
          const s = c.bits.join('')
          const sep = c.sep ?? '\n'
          const secs = sections(s, c.tag, !!c.start)
          t.nontrivial(secs.length > 1); t.cls(`sections=${Math.min(secs.length, 5)}`)
          const o = options(c)
          const r = o ? extractReasoning(s, o) : extractReasoning(s)
          eq(r, batchModel(s, c.tag, sep, c.start), `extractReasoning(${show(s)})`)
          // nothing lost, added or out of order: walking both outputs reproduces the input without its tags
          if (sep === '' && r.reasoning !== undefined && !secs.at(-1).open) {
            ok(r.reasoning.length + r.text.length === secs.reduce((n, x) => n + x.s.length, 0), 'every character is in exactly one output')
          }
        },
      },
      {
        name: 'streamed', runs: 4000,
        arb: () => fc.record({ c: input(), cut: cutting(), pause: fc.constantFrom(0, 0, 2), slow: fc.boolean() }),
        check: async ({ c, cut, pause, slow }, t) => {
          const s = c.bits.join('')
          const sep = c.sep ?? '\n'
          const secs = sections(s, c.tag, !!c.start)
          t.nontrivial(secs.length > 1); t.cls(cut.every && 'every-character')
          const ps = pieces(s, cut)
          let i = 0
          const src = new ReadableStream({ async pull(k) { if (pause) await env.sleep(pause); if (i < ps.length) k.enqueue(ps[i++]); else k.close() } })
          const o = options(c)
          const out = o ? extractReasoningStream(src, o) : extractReasoningStream(src)
          const [r, x] = await Promise.all([collect(out.reasoningStream, slow ? { onChunk: () => env.sleep(3) } : {}), collect(out.textStream)])
          ok(r.end === 'closed' && x.end === 'closed', () => `ended ${r.end}/${x.end}: ${show(r.error ?? x.error)}`)
          const want = { reasoning: join(secs, true, sep), text: join(secs, false, sep) }
          eq({ reasoning: r.chunks.join(''), text: x.chunks.join('') }, want, `split of ${show(s)} cut as ${show(ps)}`)
          if (!secs.at(-1).open) {
            const b = extractReasoning(s, { tagName: c.tag, separator: c.sep, startWithReasoning: c.start })
            eq({ reasoning: b.reasoning ?? '', text: b.text }, want, 'both splitters agree')
          }
        },
      },
      {
        name: 'failing-source', runs: 1200,
        arb: () => fc.record({ c: input(), cut: cutting(), keep: frac(1), pause: fc.constantFrom(0, 2), what: thrown() }),
        check: async ({ c, cut, keep, pause, what }, t) => {
          t.nontrivial()
          const s = c.bits.join('')
          const ps = pieces(s, cut)
          const n = Math.floor(keep * ps.length)
          const boom = mkThrown(what)
          let i = 0
          const src = new ReadableStream({ async pull(k) { if (pause) await env.sleep(pause); if (i < n) k.enqueue(ps[i++]); else k.error(boom) } })
          const out = extractReasoningStream(src, { tagName: c.tag, separator: c.sep, startWithReasoning: c.start })
          const [r, x] = await Promise.all([collect(out.reasoningStream), collect(out.textStream)])
          for (const [nm, g] of [['reasoning', r], ['text', x]]) ok(g.end === 'errored' && g.error === boom, () => `${nm} stream ended ${g.end}: ${show(g.error)}`)
          const secs = sections(ps.slice(0, n).join(''), c.tag, !!c.start)
          ok(join(secs, true, c.sep ?? '\n').startsWith(r.chunks.join('')), 'reasoning before the failure is a prefix')
          ok(join(secs, false, c.sep ?? '\n').startsWith(x.chunks.join('')), 'text before the failure is a prefix')
        },
      },
    ],
  }
}
