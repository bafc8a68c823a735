#!/bin/bash
# trybug.sh ID...: builds a scratch copy of /repo with the planted bug, runs the
# existing tests there and the demonstration on both trees.
for id in "$@"; do
    S=/verif/seeded/$id
    W=$(mktemp -d /tmp/trybug.XXXXXX)
    git -C /repo archive HEAD | tar -x -C "$W"
    (cd "$W" && timeout 300 bash "$S/demo.sh" > "$W/.un" 2>&1)
    u=$?
    (cd "$W" && git init -q . 2>/dev/null; git -C "$W" apply "$S/patch.diff")
    (cd "$W" && timeout 300 bash "$S/demo.sh" > "$W/.bug" 2>&1)
    b=$?
    echo "$id unchanged=$u (want 0) bug=$b (want nonzero): $(tail -3 "$W/.bug" | tr '\n' ' ')"
    [ $u = 0 ] || tail -5 "$W/.un"
    rm -rf "$W"
done
