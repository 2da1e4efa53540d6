// One-off generator of data/providers.json: the reference table of provider presets and factories.
// It is read off the documentation comments of the preset list (base URL, key variables) and the code-generation
// source (capabilities), cross-checked against the code once, and committed; no check regenerates it.
import { readFileSync, writeFileSync } from 'node:fs'
const src = '/repo/packages-ext/providers/src'
const idx = ['generated', 'manual', 'special'].map(d => readFileSync(`${src}/${d}/index.ts`, 'utf8')).join('\n')
const presets = {}
for (const m of idx.matchAll(/\/\*\*([\s\S]*?)\*\/\s*export const (\w+) = (\w+)(\(([^)]*)\))?/g)) {
  const [, doc, name, target, call, args] = m
  const baseURL = /baseURL - `([^`]+)`/.exec(doc)?.[1]
  const envDoc = [...(/apiKey - (.*)/.exec(doc)?.[1] ?? '').matchAll(/`(\w+)`/g)].map(x => x[1])
  const envCode = [...(args ?? '').matchAll(/process\.env\.(\w+)/g)].map(x => x[1])
  if (call && JSON.stringify(envDoc) !== JSON.stringify(envCode)) console.log('doc/code differ', name, envDoc, envCode)
  presets[name] = call ? { factory: target, baseURL, env: envCode } : { alias: target }
}
const create = ['generated/create', 'manual/create', 'manual/providers/anthropic', 'manual/providers/featherless', 'manual/providers/openrouter', 'manual/providers/together-ai', 'special/providers/player2'].map(d => readFileSync(`${src}/${d}.ts`, 'utf8')).join('\n')
const factories = {}
for (const m of create.matchAll(/export const (create\w+) = \(([^)]*)\) => (?:merge\(([\s\S]*?)\n\)|(\w+)\()/g)) {
  const base = /baseURL = '([^']+)'/.exec(m[2])?.[1]
  const body = m[3] ?? m[0] + create.slice(m.index + m[0].length).split('\n')[0]
  const caps = [...new Set([...(m[3] ?? m[4] + '(').matchAll(/create(Chat|Embed|Image|Model|Speech|Transcription)Provider/g)].map(x => x[1].toLowerCase()))]
  if (/chat: \(model/.test(body)) caps.unshift('chat')
  factories[m[1]] = { baseURL: base, caps: caps.sort() }
}
for (const [n, p] of Object.entries(presets)) if (p.factory && !factories[p.factory]) console.log('no factory', n, p)
for (const [n, p] of Object.entries(presets)) if (p.factory && factories[p.factory] && factories[p.factory].baseURL !== p.baseURL) console.log('baseURL differs', n, p, factories[p.factory])
writeFileSync(new URL('../data/providers.json', import.meta.url), `{\n "presets": {\n${Object.entries(presets).map(([k, v]) => `  ${JSON.stringify(k)}: ${JSON.stringify(v)}`).join(',\n')}\n },\n "factories": {\n${Object.entries(factories).map(([k, v]) => `  ${JSON.stringify(k)}: ${JSON.stringify(v)}`).join(',\n')}\n }\n}\n`)
console.log(Object.keys(presets).length, Object.keys(factories).length, Object.values(presets).filter(p => p.env?.length !== 1))
console.log([...new Set(Object.values(factories).map(f => f.caps.join()))])
