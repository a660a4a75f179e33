#!/bin/bash
# assembles DESIGN.md
V="$(cd "$(dirname "$0")" && pwd)"
cat "$V/design_head.md" "$V/design_props.md" "$V/design_tail.md" "$V/seed_results.md" >"$V/../DESIGN.md"
