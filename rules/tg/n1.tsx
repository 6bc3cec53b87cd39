<?xml version="1.0" encoding="UTF-8"?>
<tagger name="t">
<tagset>
  <def-label name="NOUN"><tags-item tags="n.*"/></def-label>
  <def-label name="VERB"><tags-item tags="v.*"/></def-label>
  <def-label name="ADJ"><tags-item tags="adj"/><tags-item tags="adj.*"/></def-label>
  <def-label name="DET" closed="true"><tags-item tags="det.*"/></def-label>
  <def-label name="PREP" closed="true"><tags-item tags="pr"/></def-label>
  <def-label name="THE" closed="true"><tags-item lemma="el" tags="prn"/></def-label>
  <def-label name="PRN" closed="true"><tags-item tags="prn"/></def-label>
  <def-label name="AUX" closed="true"><tags-item tags="aux.*"/></def-label>
  <def-mult name="PREPDET" closed="true"><sequence><label-item label="PREP"/><label-item label="DET"/></sequence></def-mult>
</tagset>
<forbid>
  <label-sequence><label-item label="NOUN"/><label-item label="NOUN"/></label-sequence>
  <label-sequence><label-item label="PREP"/><label-item label="VERB"/></label-sequence>
  <label-sequence><label-item label="ADJ"/><label-item label="ADJ"/></label-sequence>
  <label-sequence><label-item label="SENT"/><label-item label="VERB"/></label-sequence>
  <label-sequence><label-item label="DET"/><label-item label="PRN"/></label-sequence>
  <label-sequence><label-item label="VERB"/><label-item label="THE"/></label-sequence>
</forbid>
<preferences><prefer tags="n.pl"/></preferences>
<discard-on-ambiguity><discard tags="aux.x"/><discard tags="n.q"/></discard-on-ambiguity>
</tagger>
