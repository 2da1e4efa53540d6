import { existsSync, writeFileSync } from 'node:fs'
import { dirname, join } from 'node:path'
import { fileURLToPath } from 'node:url'
import props from './props.mjs'
const V = join(dirname(fileURLToPath(import.meta.url)), '..')
for (const p of props) {
  if (p.title.length > 80) throw new Error(`${p.id} title too long: ${p.title.length}`)
  for (const f of p.files) if (!existsSync(join('/repo', f))) throw new Error(`${p.id}: no ${f}`)
}
writeFileSync(join(V, 'properties.jsonl'), `${props.map(p => JSON.stringify({
  id: p.id, title: p.title, statement: p.statement,
  quantifier: { over: p.over, text: p.text }, why_tests_cant: p.why,
  anchors: { files: p.files, mechanism: p.mechanism.map(([name, where]) => ({ name, where })), hook_needed: null },
})).join('\n')}\n`)
const has = p => existsSync(join(V, 'checks', `${p.id}.mjs`))
writeFileSync(join(V, 'MANIFEST.json'), `${JSON.stringify({
  version: 1, setup_cmd: 'node run.mjs --build',
  checks: props.filter(has).map(p => ({
    property: p.id, quick_cmd: `node run.mjs ${p.id} quick`, thorough_cmd: `node run.mjs ${p.id} thorough`, evidence_file: `evidence/${p.id}.json`,
    technique: `property-based testing (fast-check): ${p.note}`, level: 'exploration',
    level_note: 'Generated-input search with shrinking against an explicit oracle over the real sources of the tree; finds violations inside the generated domain described in DESIGN.md and never proves absence. Trusts Node\'s fetch/stream classes, esbuild and the oracle in checks/.',
  })),
  not_applicable: props.filter(p => !has(p)).map(p => ({ property: p.id, reason: 'no check built yet' })),
}, null, 1)}\n`)
