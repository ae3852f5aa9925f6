# Sourced by check.sh and replay.sh in /verif: build the simulator from /repo's working tree, in two
# profiles: "release" (the code under test with debug assertions and overflow checks) and "plain" (without).
# If it cannot be built with the event-notation tools, it is built without them: then only C19 cannot be checked.
mkdir -p work evidence
build() { (cd sim && exec cargo build --offline --quiet --profile "$@") >"work/build-$1.log" 2>&1; }
both() {
    build plain "$@" &
    build release "$@"
    local release=$?
    wait $! && [ $release -eq 0 ]
}
if ! both && ! both --no-default-features; then
    cat work/build-release.log work/build-plain.log >&2
    echo "cannot build the simulator" >&2
    exit 2
fi
export YAMLSIM_ROOT=$PWD
export YAMLSIM_PLAIN=$PWD/target/plain/yamlsim
