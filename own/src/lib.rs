// Only here so that cargo builds the metadata of varlen; the programs are in cases.txt.
