"use strict";
// A stand-in ExifTool started by the library itself (not by a factory): a perl
// script that logs how it was started, and behaves at its nth start as planned.
const fs = require("node:fs");
const path = require("node:path");

const q = (s) => "'" + s.replace(/[\\']/g, "\\$&") + "'";

class Stub {
  /** @param plan what the first starts do; all later ones work */
  constructor(dir, name, plan = []) {
    this.path = path.join(dir, name);
    this.log = path.join(dir, ".log-" + Buffer.from(name).toString("hex").slice(0, 60));
    this.plan = plan;
  }
  write({ executable = true } = {}) {
    fs.writeFileSync(
      this.path,
      `#!/usr/bin/perl
use strict; use JSON::PP; $| = 1;
my $log = ${q(this.log)};
my @plan = (${this.plan.map(q).join(", ")});
open(my $fh, '>>', $log) or die; flock($fh, 2);
my $n = 0; if (open(my $in, '<', $log)) { while (<$in>) { $n++ } }
syswrite($fh, JSON::PP->new->latin1->canonical->encode({ script => $0, argv => [@ARGV], env => {%ENV}, pid => $$, n => $n }) . "\\n");
close($fh);
my $do = $plan[$n] // 'ok';
exit 1 if $do eq 'exit1'; exit 0 if $do eq 'exit0';
if ($do eq 'die') { print STDERR "Can't do that\\n"; exit 2 }
if ($do eq 'hang') { sleep 600; exit }
my @args;
while (my $l = <STDIN>) {
  chomp $l;
  if ($l eq 'False' && @args && $args[-1] eq '-stay_open') { exit 0 }
  if ($l ne '-execute') { push @args, $l; next }
  if ($do eq 'garbage') { print "what?\\n"; print STDERR "Error: no\\n"; exit 3 }
  if ($do eq 'silent') { sleep 600; exit }
  if (@args && $args[0] eq '-ver') { print "13.59\\n{ready}\\n" }
  else {
    open(my $c, '>>', "$log.cmd"); syswrite($c, JSON::PP->new->latin1->encode({ pid => $$, args => [@args] }) . "\\n"); close($c);
    my ($f) = grep { m{^/} } reverse @args;
    print JSON::PP->new->latin1->encode([{ SourceFile => $f, StubPid => $$ }]) . "\\n{ready}\\n";
  }
  @args = ();
}
`,
    );
    fs.chmodSync(this.path, executable ? 0o755 : 0o644);
    return this;
  }
  lines(f) {
    try {
      return fs.readFileSync(f, "latin1").split("\n").filter(Boolean).map((l) => JSON.parse(Buffer.from(l, "latin1").toString("utf8")));
    } catch {
      return [];
    }
  }
  starts() {
    return this.lines(this.log);
  }
  commands() {
    return this.lines(this.log + ".cmd");
  }
}
module.exports = { Stub };
