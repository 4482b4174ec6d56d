// Loaded before the server: whatever port it asks for, it gets a free one of the loopback network, and says which.
'use strict';
const net = require('node:net');
const real = net.Server.prototype.listen;
net.Server.prototype.listen = function (...a) {
    const asked = typeof a[0] === 'object' && a[0] !== null ? a[0].port : a[0];
    const done = a.find(x => typeof x === 'function');
    this.once('listening', () => process.send?.({ port: this.address().port, asked }));
    return real.call(this, { port: 0, host: '127.0.0.1' }, ...(done ? [done] : []));
};
