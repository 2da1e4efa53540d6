import { clone, collect, eq, fc, frac, jsonVal, mkThrown, ok, show, sized, splitText, text, thrown } from '../lib/kit.mjs'
import { env } from '../lib/env.mjs'

const bit = () => fc.oneof(
  { weight: 5, arbitrary: fc.constantFrom('word', 'a', 'Hello,', '漢字', '😀', 'x1', '42', '...', 'e\u0301', 'aa') },
  { weight: 5, arbitrary: fc.constantFrom(' ', ' ', '\n', '\n\n', '  ', '\t', '\r\n', '\u00A0', '。') },
  { weight: 1, arbitrary: text(2) },
)
// now and then hundreds of pieces, or a single word of thousands of characters
const flow = () => fc.oneof(
  { weight: 60, arbitrary: fc.array(bit(), { maxLength: 16 }) },
  { weight: 2, arbitrary: fc.array(bit(), { minLength: 40, maxLength: 150 }) },
  { weight: 1, arbitrary: fc.tuple(fc.array(bit(), { maxLength: 4 }), fc.integer({ min: 600, max: 2500 }), fc.array(bit(), { maxLength: 6 })).map(([a, n, b]) => [...a, 'w'.repeat(n), ...b]) },
).map(a => a.join(''))
// word and line, and the caller's own patterns: anchored or not, global, sticky, possibly empty, with groups or lookahead
const PATTERNS = ['word', 'line', 'default', '/[,.。]/', '/.{3}/su', '/\\d+/', '/\\S+\\s+/', '/\\S+\\s+/g', '/[^\\n]*\\n/y', '/a/gi', '/x*/', '/(?=b)/', '/\\s*/', '/a(?=b)/', '/(a)|(\\s)/', '/$/', '/^/m', '/\\n/', '/(?<=a) /', '/[\\s\\S]/g', '/word/i']
const SHAPED = new Set(['word', 'line', 'default', '/[,.。]/', '/\\S+\\s+/', '/\\S+\\s+/g', '/[^\\n]*\\n/y', '/a/gi', '/\\n/', '/(a)|(\\s)/', '/[\\s\\S]/g', '/word/i', '/.{3}/su'])
const mk = (p) => { const m = /^\/(.*)\/(\w*)$/s.exec(p); return new RegExp(m[1], m[2]) }
const cutting = () => fc.oneof({ weight: 3, arbitrary: fc.array(frac(), { maxLength: 10 }).map(cuts => ({ cuts })) }, { weight: 2, arbitrary: fc.constant({ every: true }) }, { weight: 2, arbitrary: fc.constant({ cuts: [] }) })
const pieces = (s, c) => c.every ? Array.from(s) : splitText(s, c.cuts)
const timed = async (stream, slow) => {
  const times = []
  const r = await collect(stream, { onChunk: async () => { times.push(env.now); if (slow) await env.sleep(slow) } })
  return { ...r, times }
}

export default ({ lib }) => {
  const { smoothStream, simulateReadableStream } = lib.xsai
  const re = p => p === 'word' || p === 'default' ? /^\s*\S+\s+$/ : p === 'line' ? /^[^\n]*\n$/ : null
  // is `piece` exactly one unit of the pattern (with whatever text comes before it)?
  const unit = (p, piece) => {
    if (re(p)) return re(p).test(piece)
    const r = mk(p)
    const m = new RegExp(r.source, r.flags.replace(/g/, '')).exec(piece)
    return m !== null && m[0] !== '' && m.index + m[0].length === piece.length
  }
  const hasUnit = (p, rest) => {
    if (p === 'word' || p === 'default') return /\S\s/.test(rest)
    if (p === 'line') return rest.includes('\n')
    const r = mk(p)
    const m = new RegExp(r.source, r.flags.replace(/g/, '')).exec(rest)
    return m !== null && m[0] !== ''
  }
  return {
    rule: 'A case is a text with words, lines and odd white space, cut into generated pieces and smoothed by words, lines or one of eighteen patterns of the caller with a generated delay, read eagerly or slowly, possibly from a failing source; or a list of values (up to hundreds) simulated with generated delays. Non-trivial: at least two pieces come out. Oracle: concatenation, shape of every piece, and the times of a virtual clock.',
    assumptions: ['for patterns with lookaround only content, order and termination are judged'],
    subs: [
      {
        name: 'smooth', runs: 4000,
        arb: () => fc.record({ s: flow(), p: fc.constantFrom(...PATTERNS, 'word', 'line', 'word', 'line'), cut: cutting(), delay: fc.constantFrom(undefined, 0, 1, 10, 25), pause: fc.constantFrom(0, 0, 0, 7), slow: fc.constantFrom(0, 0, 40), shared: fc.boolean() }),
        check: async ({ s, p, cut, delay, pause, slow, shared }, t) => {
          const ps = pieces(s, cut)
          t.cls(p)
          const src = () => { let i = 0; return new ReadableStream({ async pull(k) { if (pause) await env.sleep(pause); if (i < ps.length) k.enqueue(ps[i++]); else k.close() } }) }
          const pattern = p.startsWith('/') ? mk(p) : p === 'default' ? undefined : p
          const opts = { chunking: pattern, delay }
          const start = () => src().pipeThrough(p === 'default' && delay === undefined ? smoothStream() : smoothStream(opts))
          // a pattern object may be used by two streams at once
          const both = await Promise.all([timed(start(), slow), ...(shared ? [timed(start(), slow)] : [])])
          for (const { chunks, end, error, times } of both) {
            t.nontrivial(chunks.length > 1)
            ok(end === 'closed', () => `ended ${end}: ${show(error)}`)
            eq(chunks.join(''), s, `text smoothed by ${p}`)
            for (const c of chunks) ok(c !== '', 'no empty pieces')
            if (SHAPED.has(p)) {
              chunks.slice(0, -1).forEach((c, k) => ok(unit(p, c), () => `piece ${k} ${show(c)} is not one ${p} of ${show(chunks)}`))
              const last = chunks.at(-1)
              if (last !== undefined) ok(unit(p, last) || !hasUnit(p, last), () => `the last piece ${show(last)} should have been cut by ${p}`)
            }
            const d = delay ?? 10
            if (!slow) {
              // never faster than asked; exactly as fast as asked when all the text is there at once
              for (let k = 1; k < chunks.length; k++) {
                const gap = times[k] - times[k - 1]
                ok(gap >= d, () => `piece ${k} came ${gap} ms after the one before, ${d} was asked`)
                if (!pause) ok(gap === d, () => `piece ${k} came ${gap} ms after the one before instead of ${d}`)
              }
            }
          }
          if (shared) eq(both[1].chunks, both[0].chunks, 'two streams sharing a pattern')
        },
      },
      {
        name: 'smooth-failing', runs: 800,
        arb: () => fc.record({ s: flow(), p: fc.constantFrom(...PATTERNS), cut: cutting(), keep: frac(1), delay: fc.constantFrom(0, 10), what: thrown() }),
        check: async ({ s, p, cut, keep, delay, what }, t) => {
          const ps = pieces(s, cut)
          const n = Math.floor(keep * ps.length)
          t.nontrivial(n > 0)
          const boom = mkThrown(what)
          let i = 0
          const src = new ReadableStream({ pull(k) { if (i < n) k.enqueue(ps[i++]); else k.error(boom) } })
          const g = await timed(src.pipeThrough(smoothStream({ chunking: p.startsWith('/') ? mk(p) : p === 'default' ? undefined : p, delay })))
          ok(g.end === 'errored' && g.error === boom, () => `a failing source ended ${g.end}: ${show(g.error)}`)
          ok(s.startsWith(g.chunks.join('')), 'text before the failure is a prefix')
        },
      },
      {
        name: 'simulate', runs: 1200,
        arb: () => fc.record({ chunks: sized(fc.array(fc.oneof(text(2), jsonVal(1), fc.constant(undefined)), { maxLength: 8 }), fc.array(fc.oneof(text(1), fc.constant(null)), { minLength: 40, maxLength: 300 })), initialDelay: fc.constantFrom(0, 1, 50), chunkDelay: fc.constantFrom(0, 1, 10), cancelAfter: fc.option(fc.integer({ min: 1, max: 4 }), { nil: undefined, freq: 4 }) }),
        check: async ({ chunks, initialDelay, chunkDelay, cancelAfter }, t) => {
          t.nontrivial(chunks.length > 1); t.cls(cancelAfter && 'cancelled')
          const before = clone(chunks)
          const t0 = env.now
          const times = []
          const r = await collect(simulateReadableStream({ chunks, initialDelay, chunkDelay }), { cancelAfter, onChunk: () => { times.push(env.now - t0) } })
          ok(r.end === (cancelAfter !== undefined && chunks.length >= cancelAfter ? 'cancelled' : 'closed'), () => `ended ${r.end}: ${show(r.error)}`)
          const want = r.end === 'cancelled' ? before.slice(0, cancelAfter) : before
          ok(r.chunks.length === want.length, `number of chunks ${r.chunks.length} instead of ${want.length}`)
          eq(r.chunks, want, 'simulated chunks')
          eq(times, want.map((_, k) => initialDelay + k * chunkDelay), 'times of the chunks')
          eq(chunks, before, 'the given list')
        },
      },
    ],
  }
}
