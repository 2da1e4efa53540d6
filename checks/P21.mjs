import { clone, deepFreeze, eq, fc, jsonReply, jsonVal, makeServer, ok, outcome, same, show, sized, text, text1 } from '../lib/kit.mjs'
import { baseURLArb, baseStr, baseVal } from '../lib/kit.mjs'

const vector = () => fc.array(fc.oneof(fc.double({ noNaN: true, noDefaultInfinity: true, min: -1, max: 1 }).map(x => Object.is(x, -0) ? 0 : x), fc.constantFrom(0, 1, -1, 1e-12, 0.1)), { maxLength: 6 })
const usage = () => fc.record({ prompt_tokens: fc.nat({ max: 9999 }), total_tokens: fc.nat({ max: 9999 }), extra: fc.option(jsonVal(1), { nil: undefined }) }).map(({ extra, ...u }) => extra === undefined ? u : { ...u, details: extra })
// model ids seen in the wild plus arbitrary ones; dot segments cannot be addressed by a URL path
const modelId = () => fc.oneof(
  fc.constantFrom('gpt-4o', 'meta-llama/Llama-3.1-8B-Instruct:free', '@cf/baai/bge-m3', 'ft:gpt-3.5-turbo:org:name:id', 'llama3:8b-q4_K_M', 'a b', 'x?y=1', 'x#y', '50%', 'a%2Fb', 'a\\b', 'ü模', 'a+b', 'a&b=c', '~x', '(x)'),
  text1(2),
  fc.array(fc.constantFrom('m', 'org/x', '#', '?', '%', ' ', ':', '%2F', '&', '=', '+', ';', '@', 'é', '\\'), { minLength: 2, maxLength: 7 }).map(x => x.join('')),
).filter(m => m.split('/').every(s => !['', '.', '..'].includes(s) && !/^(?:\.|%2e){1,2}$/i.test(s)))
const model = () => fc.record({ id: text(2), object: fc.constant('model'), created: fc.nat(), owned_by: text(2), extra: fc.option(jsonVal(2), { nil: undefined }) }).map(({ extra, ...m }) => extra === undefined ? m : { ...m, capabilities: extra })

export default ({ lib }) => {
  const X = lib.xsai
  const fns = { plain: X, telemetry: lib.telemetry }
  const common = b => ({ baseURL: baseVal(b), apiKey: 'k', model: 'e-1' })
  return {
    rule: 'A case is a generated reply of the embeddings or models endpoint (vectors, usage, model objects with unknown fields, any order of the batch entries) for a generated request, through the plain or the instrumented client. Non-trivial: more than one vector or model, or the model id needs care in a URL. Oracle: the reply itself.',
    assumptions: ['batch entries carry the documented index', 'model ids have no empty or dot path segments'],
    subs: [
      {
        name: 'embed', runs: 1200,
        arb: () => fc.record({ via: fc.constantFrom('plain', 'telemetry'), b: baseURLArb(), input: text(5), v: vector(), u: usage(), more: fc.boolean() }),
        check: async ({ via, b, input, v, u, more }, t) => {
          t.nontrivial(v.length > 1); t.cls(via)
          const srv = makeServer(() => jsonReply({ object: 'list', model: 'm', data: [{ object: 'embedding', index: 0, embedding: v }], usage: u, ...(more ? { system_fingerprint: 'x' } : {}) }))
          const r = await outcome(fns[via].embed({ ...common(b), input, fetch: srv.fetch }))
          ok(r.ok, () => `failed: ${show(r.error)}`)
          eq(r.value, { embedding: v, input, usage: u }, 'embed result')
          eq(srv.log.map(x => x.json.input), [input], 'requests')
        },
      },
      {
        name: 'embedMany', runs: 1800,
        arb: () => fc.record({ via: fc.constantFrom('plain', 'telemetry'), b: baseURLArb(), pairs: sized(fc.array(fc.tuple(text(3), vector()), { maxLength: 14 }), fc.array(fc.tuple(text(1), vector()), { minLength: 60, maxLength: 300 })), u: usage(), order: fc.constantFrom('given', 'given', 'reverse', 'shuffled'), salt: fc.nat({ max: 1000 }), frozen: fc.boolean(), count: fc.constantFrom('same', 'same', 'same', 'fewer', 'more') }),
        check: async ({ via, b, pairs, u, order, salt, frozen, count }, t) => {
          t.nontrivial(pairs.length > 1); t.cls(via, order, pairs.length > 10 && 'more-than-ten')
          const input = pairs.map(p => p[0])
          const before = clone(input)
          let data = pairs.map(([, embedding], index) => ({ object: 'embedding', index, embedding }))
          // a server that answers with fewer or more vectors: what came is returned, and the input stays the caller's
          if (count === 'fewer') data.splice(Math.floor(data.length / 2))
          if (count === 'more') data.push({ object: 'embedding', index: data.length, embedding: [9] })
          const vectors = data.map(d => d.embedding)
          t.cls(count)
          if (order === 'reverse') data.reverse()
          if (order === 'shuffled') data = data.map((d, i) => [((i + 1) * 7919 + salt * 31) % 101, d]).sort((x, y) => x[0] - y[0]).map(x => x[1])
          const srv = makeServer(() => jsonReply({ object: 'list', model: 'm', data, usage: u }))
          const r = await outcome(fns[via].embedMany({ ...common(b), input: frozen ? deepFreeze(input) : input, fetch: srv.fetch }))
          ok(r.ok, () => `failed: ${show(r.error)}`)
          eq(r.value, { embeddings: vectors, input: before, usage: u }, 'embedMany result')
          eq(input, before, 'the caller\'s input')
          eq(srv.log.map(x => x.json.input), [before], 'requests')
        },
      },
      {
        name: 'models', runs: 1200,
        arb: () => fc.record({ b: baseURLArb(), list: sized(fc.array(model(), { maxLength: 8 }), fc.array(model(), { minLength: 40, maxLength: 200 })), more: fc.boolean() }),
        check: async ({ b, list, more }, t) => {
          t.nontrivial(list.length > 1)
          const srv = makeServer(() => jsonReply({ object: 'list', data: list, ...(more ? { has_more: false } : {}) }))
          const r = await outcome(X.listModels({ baseURL: baseVal(b), apiKey: 'k', fetch: srv.fetch }))
          ok(r.ok, () => `failed: ${show(r.error)}`)
          eq(r.value, list, 'listed models')
          ok(srv.log.length === 1 && srv.log[0].method === 'GET', 'one GET request')
        },
      },
      {
        name: 'retrieve', runs: 1500,
        arb: () => fc.record({ b: baseURLArb(), id: modelId(), m: model() }),
        check: async ({ b, id, m }, t) => {
          t.nontrivial(/[^\w.-]/.test(id))
          const srv = makeServer(() => jsonReply(m))
          const r = await outcome(X.retrieveModel({ ...common(b), model: id, fetch: srv.fetch }))
          ok(r.ok, () => `failed: ${show(r.error)}`)
          eq(r.value, m, 'retrieved model')
          ok(srv.log.length === 1 && srv.log[0].method === 'GET', 'one GET request')
          const url = new URL(srv.log[0].url)
          const prefix = `${new URL(`${baseStr(b).replace(/\/$/, '')}/models/`).pathname}`
          ok(url.search === '' && url.hash === '' && url.pathname.startsWith(prefix), () => `asked for ${srv.log[0].url} to retrieve ${show(id)}`)
          const asked = (() => { try { return decodeURIComponent(url.pathname.slice(prefix.length)) } catch { return undefined } })()
          ok(asked === id, () => `asked for model ${show(asked)} instead of ${show(id)}`)
        },
      },
    ],
  }
}
