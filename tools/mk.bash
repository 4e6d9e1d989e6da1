mk () 
{ 
    d=/verif/seeded/$1;
    mkdir -p $d;
    cp /verif/tools/demo/demo.sh $d/;
    cat > $d/main.rs;
    git -C /tmp/plant/repo diff > $d/patch.diff;
    python3 -c "import json,sys;json.dump({'property':sys.argv[1],'needs':sys.argv[2],'what_it_breaks':sys.argv[3]},open(sys.argv[4],'w'),indent=1)" "$2" "$3" "$4" $d/meta.json;
    git -C /tmp/plant/repo checkout -q -- .
}
