// Settles the asynchronous steps of parsers in a prescribed order.
export class Scheduler {
  pending: (() => void)[] = []; steps = 0;
  private sched: string[][] = []; private at = 0; private on = false; private armed = false;
  start(s: string[][]) { this.sched = s; this.at = 0; this.on = true; this.steps = 0; }
  stop() { this.on = false; for (const f of this.pending.splice(0)) f(); }
  tick(): Promise<void> {
    return new Promise((res) => {
      if (!this.on) { res(); return; }
      this.pending.push(res); this.arm();
    });
  }
  private arm() {
    if (this.armed || !this.pending.length) return;
    this.armed = true;
    const [pick, late] = this.sched.length ? this.sched[this.at++ % this.sched.length] : ["first", "micro"];
    const go = () => {
      this.armed = false;
      const f = pick === "first" ? this.pending.shift() : this.pending.pop();
      if (f) { this.steps++; f(); }
      this.arm();
    };
    if (late === "turn") setImmediate(go); else queueMicrotask(() => queueMicrotask(() => queueMicrotask(go)));
  }
}
