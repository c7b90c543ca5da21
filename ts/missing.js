'use strict';
// Reading something a stand-in does not have is a limit of the stand-in, not a finding about the client.

class Missing extends Error {}

const quiet = new Set(['then', 'toJSON', 'inspect', 'constructor', 'asymmetricMatch', '__esModule', 'default', 'nodeType', 'length']);

// a static table, its absent names reported instead of being undefined
function guard(object, what) {
  const bottom = Object.getPrototypeOf(object) || Object.prototype;
  Object.setPrototypeOf(
    object,
    new Proxy(Object.create(bottom), {
      get(target, name, receiver) {
        if (typeof name === 'symbol' || quiet.has(name) || name in target) return Reflect.get(target, name, receiver);
        throw new Missing(`${what}.${String(name)} is not available here`);
      },
    }),
  );
  return object;
}

module.exports = { Missing, guard };
