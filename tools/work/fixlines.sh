# lines of a file not from the base commit
git -C /repo blame -s $1 | grep -v '^^37337e2' | cut -c1-160
