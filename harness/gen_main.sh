#!/bin/bash
# writes src/entries.rs: the list of all harness entries
cd "$(dirname "$0")/src"
{
  echo "// generated by gen_main.sh"
  echo "pub const ENTRIES: &[(&str, extern \"C\" fn())] = &["
  for f in p_*.rs; do
    m=${f%.rs}
    c=
    [ $m = p_cli ] && c='#[cfg(feature = "cli")] '
    [ $m = p_py ] && c='#[cfg(feature = "py")] '
    grep -o 'extern "C" fn h_[a-z0-9_]*' $f | sed "s/.*fn \(h_.*\)/    $c(\"\1\", crate::$m::\1),/"
  done
  echo "];"
} > entries.rs
