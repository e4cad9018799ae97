// Executes the javascript that MARXS ships or writes with a minimal stand-in for three.js that records what would be drawn.
// stdin: {files: [paths of javascript to load], code: text or null, json: text or null}; stdout: list of meshes.
'use strict';
const vm = require('vm');
const fs = require('fs');
const inp = JSON.parse(fs.readFileSync(0, 'utf8'));
const stub = `
var THREE = {DoubleSide: 2, VertexColors: 2, DefaultLoadingManager: {}};
THREE.Vector3 = function () { this.x = 0; this.y = 0; this.z = 0; };
THREE.Vector3.prototype.subVectors = function (a, b) { this.x = a.x - b.x; this.y = a.y - b.y; this.z = (a.z || 0) - (b.z || 0); return this; };
THREE.Vector3.prototype.normalize = function () { var l = Math.sqrt(this.x * this.x + this.y * this.y + this.z * this.z) || 1; this.x /= l; this.y /= l; this.z /= l; return this; };
THREE.BufferAttribute = function (array, itemSize) { this.array = array; this.itemSize = itemSize; };
THREE.BufferGeometry = function () { this.attributes = {}; this.index = null; };
THREE.BufferGeometry.prototype.addAttribute = function (n, a) { this.attributes[n] = a; return this; };
THREE.BufferGeometry.prototype.setIndex = function (a) { this.index = a; };
THREE.BufferGeometry.prototype.computeBoundingSphere = function () {};
THREE.BoxGeometry = function (w, h, d) {
  THREE.BufferGeometry.call(this);
  var p = [], i;
  for (i = 0; i < 8; i++) p.push((i & 1 ? .5 : -.5) * w, (i & 2 ? .5 : -.5) * h, (i & 4 ? .5 : -.5) * d);
  this.addAttribute('position', new THREE.BufferAttribute(p, 3));
};
THREE.BoxGeometry.prototype = Object.create(THREE.BufferGeometry.prototype);
THREE.Matrix4 = function () { this.elements = [1,0,0,0, 0,1,0,0, 0,0,1,0, 0,0,0,1]; };
THREE.Matrix4.prototype.set = function () {
  if (arguments.length != 16) throw new Error('Matrix4.set needs 16 numbers');
  for (var r = 0; r < 4; r++) for (var c = 0; c < 4; c++) this.elements[4 * c + r] = arguments[4 * r + c];
};
THREE.MeshStandardMaterial = function (p) { this.kind = 'MeshStandardMaterial'; this.p = p; };
THREE.LineBasicMaterial = function (p) { this.kind = 'LineBasicMaterial'; this.p = p; };
THREE.Mesh = function (g, m) { this.kind = 'Mesh'; this.geometry = g; this.material = m; this.matrix = new THREE.Matrix4(); };
THREE.Line = function (g, m) { this.kind = 'Line'; this.geometry = g; this.material = m; this.matrix = new THREE.Matrix4(); };
var drawn = [];
var scene = {add: function (m) { drawn.push(m); }};
`;
const ctx = vm.createContext({});
vm.runInContext(stub, ctx);
for (const f of inp.files) vm.runInContext(fs.readFileSync(f, 'utf8'), ctx, {filename: f});
if (inp.code !== null) vm.runInContext(inp.code, ctx);
if (inp.json !== null) {
  ctx.jsondata = JSON.parse(inp.json);
  vm.runInContext('(new THREE.MARXSLoader()).parse(jsondata).objects.forEach(function (l) { l.forEach(function (m) { drawn.push(m); }); });', ctx);
}
const num = a => Array.from(a, x => (Number.isFinite(x) ? x : null));
const out = Array.from(ctx.drawn).map(function (m) {
  const a = m.geometry.attributes;
  return {kind: m.kind, name: String(m.name), material: m.material.kind, prop: m.material.p, matrix: num(m.matrix.elements),
          pos: num(a.position.array), color: a.color ? num(a.color.array) : null,
          index: m.geometry.index ? num(m.geometry.index.array) : null};
});
process.stdout.write(JSON.stringify(out));
