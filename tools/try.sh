# try.sh ID [Cxx ..]: run checks on a scratch copy of /repo with the planted bug ID
id=$1; shift
d=$(mktemp -d /tmp/try.$id.XXXX); cp -a /repo/. $d
git -C $d apply /verif/seeded/$id/patch.diff || exit 9
for c in ${@:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}; do
o=/tmp/tryout.$id.$c
VERIF_REPO=$d timeout 900 python3 /verif/run.py $c > $o 2>&1; echo "$id $c rc=$? $(grep -c 'FAILED OBL' $o) ob; $(grep -c 'FAILING INPUT' $o) inputs; $(tail -1 $o | cut -c1-120)"
done
rm -rf $d
