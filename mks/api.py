"""Functions and methods of the analysed release: the interface the
properties are stated for.  A helper added later is analysed where these call it."""
API = {
    'metaknowledge.RCglimpse:_glimpse',
    'metaknowledge.RCglimpse:makeHeader',
    'metaknowledge.RCglimpse:makeTable',
    'metaknowledge.RCglimpse:prepEntry',
    'metaknowledge.WOS.recordWOS:WOSRecord.UT',
    'metaknowledge.WOS.recordWOS:WOSRecord.__init__',
    'metaknowledge.WOS.recordWOS:WOSRecord.encoding',
    'metaknowledge.WOS.recordWOS:WOSRecord.getAltName',
    'metaknowledge.WOS.recordWOS:WOSRecord.specialFuncs',
    'metaknowledge.WOS.recordWOS:WOSRecord.tagProcessingFunc',
    'metaknowledge.WOS.recordWOS:WOSRecord.wosString',
    'metaknowledge.WOS.recordWOS:WOSRecord.writeRecord',
    'metaknowledge.WOS.recordWOS:recordParser',
    'metaknowledge.WOS.tagProcessing.funcDicts:isTagOrName',
    'metaknowledge.WOS.tagProcessing.funcDicts:normalizeToName',
    'metaknowledge.WOS.tagProcessing.funcDicts:normalizeToTag',
    'metaknowledge.WOS.tagProcessing.funcDicts:tagToFull',
    'metaknowledge.WOS.tagProcessing.helpFuncs:getMonth',
    'metaknowledge.WOS.tagProcessing.helpFuncs:makeBiDirectional',
    'metaknowledge.WOS.tagProcessing.helpFuncs:reverseDict',
    'metaknowledge.WOS.tagProcessing.tagFunctions:DOI',
    'metaknowledge.WOS.tagProcessing.tagFunctions:ISBN',
    'metaknowledge.WOS.tagProcessing.tagFunctions:ISSN',
    'metaknowledge.WOS.tagProcessing.tagFunctions:ResearcherIDnumber',
    'metaknowledge.WOS.tagProcessing.tagFunctions:abstract',
    'metaknowledge.WOS.tagProcessing.tagFunctions:articleNumber',
    'metaknowledge.WOS.tagProcessing.tagFunctions:authAddress',
    'metaknowledge.WOS.tagProcessing.tagFunctions:authKeywords',
    'metaknowledge.WOS.tagProcessing.tagFunctions:authorsFull',
    'metaknowledge.WOS.tagProcessing.tagFunctions:authorsShort',
    'metaknowledge.WOS.tagProcessing.tagFunctions:beginningPage',
    'metaknowledge.WOS.tagProcessing.tagFunctions:bookAuthor',
    'metaknowledge.WOS.tagProcessing.tagFunctions:bookAuthorFull',
    'metaknowledge.WOS.tagProcessing.tagFunctions:bookDOI',
    'metaknowledge.WOS.tagProcessing.tagFunctions:citations',
    'metaknowledge.WOS.tagProcessing.tagFunctions:citedRefsCount',
    'metaknowledge.WOS.tagProcessing.tagFunctions:confDate',
    'metaknowledge.WOS.tagProcessing.tagFunctions:confHost',
    'metaknowledge.WOS.tagProcessing.tagFunctions:confLocation',
    'metaknowledge.WOS.tagProcessing.tagFunctions:confSponsors',
    'metaknowledge.WOS.tagProcessing.tagFunctions:confTitle',
    'metaknowledge.WOS.tagProcessing.tagFunctions:docType',
    'metaknowledge.WOS.tagProcessing.tagFunctions:documentDeliveryNumber',
    'metaknowledge.WOS.tagProcessing.tagFunctions:eISSN',
    'metaknowledge.WOS.tagProcessing.tagFunctions:editedBy',
    'metaknowledge.WOS.tagProcessing.tagFunctions:editors',
    'metaknowledge.WOS.tagProcessing.tagFunctions:email',
    'metaknowledge.WOS.tagProcessing.tagFunctions:endingPage',
    'metaknowledge.WOS.tagProcessing.tagFunctions:funding',
    'metaknowledge.WOS.tagProcessing.tagFunctions:fundingText',
    'metaknowledge.WOS.tagProcessing.tagFunctions:group',
    'metaknowledge.WOS.tagProcessing.tagFunctions:groupName',
    'metaknowledge.WOS.tagProcessing.tagFunctions:isoAbbreviation',
    'metaknowledge.WOS.tagProcessing.tagFunctions:issue',
    'metaknowledge.WOS.tagProcessing.tagFunctions:j9',
    'metaknowledge.WOS.tagProcessing.tagFunctions:journal',
    'metaknowledge.WOS.tagProcessing.tagFunctions:keywords',
    'metaknowledge.WOS.tagProcessing.tagFunctions:language',
    'metaknowledge.WOS.tagProcessing.tagFunctions:meetingAbstract',
    'metaknowledge.WOS.tagProcessing.tagFunctions:month',
    'metaknowledge.WOS.tagProcessing.tagFunctions:orcID',
    'metaknowledge.WOS.tagProcessing.tagFunctions:pageCount',
    'metaknowledge.WOS.tagProcessing.tagFunctions:partNumber',
    'metaknowledge.WOS.tagProcessing.tagFunctions:pubMedID',
    'metaknowledge.WOS.tagProcessing.tagFunctions:pubType',
    'metaknowledge.WOS.tagProcessing.tagFunctions:publisher',
    'metaknowledge.WOS.tagProcessing.tagFunctions:publisherAddress',
    'metaknowledge.WOS.tagProcessing.tagFunctions:publisherCity',
    'metaknowledge.WOS.tagProcessing.tagFunctions:reprintAddress',
    'metaknowledge.WOS.tagProcessing.tagFunctions:seriesSubtitle',
    'metaknowledge.WOS.tagProcessing.tagFunctions:seriesTitle',
    'metaknowledge.WOS.tagProcessing.tagFunctions:specialIssue',
    'metaknowledge.WOS.tagProcessing.tagFunctions:subjectCategory',
    'metaknowledge.WOS.tagProcessing.tagFunctions:subjects',
    'metaknowledge.WOS.tagProcessing.tagFunctions:supplement',
    'metaknowledge.WOS.tagProcessing.tagFunctions:title',
    'metaknowledge.WOS.tagProcessing.tagFunctions:totalTimesCited',
    'metaknowledge.WOS.tagProcessing.tagFunctions:volume',
    'metaknowledge.WOS.tagProcessing.tagFunctions:wosString',
    'metaknowledge.WOS.tagProcessing.tagFunctions:wosTimesCited',
    'metaknowledge.WOS.tagProcessing.tagFunctions:year',
    'metaknowledge.WOS.wosHandlers:isWOSFile',
    'metaknowledge.WOS.wosHandlers:wosParser',
    'metaknowledge.bin.metaknowledgeCLI:Tag',
    'metaknowledge.bin.metaknowledgeCLI:argumentParser',
    'metaknowledge.bin.metaknowledgeCLI:getFiles',
    'metaknowledge.bin.metaknowledgeCLI:getNetwork',
    'metaknowledge.bin.metaknowledgeCLI:getNum',
    'metaknowledge.bin.metaknowledgeCLI:getOutputName',
    'metaknowledge.bin.metaknowledgeCLI:getThresholds',
    'metaknowledge.bin.metaknowledgeCLI:getWhatToDo',
    'metaknowledge.bin.metaknowledgeCLI:inputMenu',
    'metaknowledge.bin.metaknowledgeCLI:mkCLI',
    'metaknowledge.bin.metaknowledgeCLI:outputNetwork',
    'metaknowledge.bin.metaknowledgeCLI:yesorNo',
    'metaknowledge.bin.metaknowledgeDocsGen:argumentParser',
    'metaknowledge.bin.metaknowledgeDocsGen:cleanargs',
    'metaknowledge.bin.metaknowledgeDocsGen:cleanedDoc',
    'metaknowledge.bin.metaknowledgeDocsGen:getLineNumber',
    'metaknowledge.bin.metaknowledgeDocsGen:main',
    'metaknowledge.bin.metaknowledgeDocsGen:makeBlurb',
    'metaknowledge.bin.metaknowledgeDocsGen:makeHeader',
    'metaknowledge.bin.metaknowledgeDocsGen:makeLine',
    'metaknowledge.bin.metaknowledgeDocsGen:makeSingleFileUrls',
    'metaknowledge.bin.metaknowledgeDocsGen:makeTable',
    'metaknowledge.bin.metaknowledgeDocsGen:makeTitle',
    'metaknowledge.bin.metaknowledgeDocsGen:makeUrls',
    'metaknowledge.bin.metaknowledgeDocsGen:mkDocs',
    'metaknowledge.bin.metaknowledgeDocsGen:proccessClass',
    'metaknowledge.bin.metaknowledgeDocsGen:writeClass',
    'metaknowledge.bin.metaknowledgeDocsGen:writeClassFile',
    'metaknowledge.bin.metaknowledgeDocsGen:writeFunc',
    'metaknowledge.bin.metaknowledgeDocsGen:writeMainBody',
    'metaknowledge.bin.metaknowledgeDocsGen:writeModuleFile',
    'metaknowledge.bin.metaknowledgeMdToNb:argumentParser',
    'metaknowledge.bin.metaknowledgeMdToNb:convert',
    'metaknowledge.bin.metaknowledgeMdToNb:convertString',
    'metaknowledge.bin.metaknowledgeMdToNb:mkMdToNb',
    'metaknowledge.bin.metaknowledgeMdToNb:stringPreprossesing',
    'metaknowledge.bin.metaknowledgeMdToNb:writeMDcell',
    'metaknowledge.bin.metaknowledgeMdToNb:writePYcell',
    'metaknowledge.citation:Citation.Extra',
    'metaknowledge.citation:Citation.FullJournalName',
    'metaknowledge.citation:Citation.ID',
    'metaknowledge.citation:Citation.__eq__',
    'metaknowledge.citation:Citation.__hash__',
    'metaknowledge.citation:Citation.__init__',
    'metaknowledge.citation:Citation.__repr__',
    'metaknowledge.citation:Citation.__str__',
    'metaknowledge.citation:Citation.addToDB',
    'metaknowledge.citation:Citation.allButDOI',
    'metaknowledge.citation:Citation.isAnonymous',
    'metaknowledge.citation:Citation.isJournal',
    'metaknowledge.citation:filterNonJournals',
    'metaknowledge.constants:isInteractive',
    'metaknowledge.contour.plotting:graphDensityContourPlot',
    'metaknowledge.contour.plotting:quickVisual',
    'metaknowledge.diffusion:diffusionAddCountsFromSource',
    'metaknowledge.diffusion:diffusionCount',
    'metaknowledge.diffusion:diffusionGraph',
    'metaknowledge.diffusion:makeNodeID',
    'metaknowledge.fileHandlers:unrecognizedFileHandler',
    'metaknowledge.genders.nameGender:downloadData',
    'metaknowledge.genders.nameGender:getMapping',
    'metaknowledge.genders.nameGender:nameStringGender',
    'metaknowledge.genders.nameGender:recordGenders',
    'metaknowledge.grantCollection:GrantCollection.__init__',
    'metaknowledge.grantCollection:GrantCollection.networkCoInvestigator',
    'metaknowledge.grantCollection:GrantCollection.networkCoInvestigatorInstitution',
    'metaknowledge.grants.baseGrant:FallbackGrant.__init__',
    'metaknowledge.grants.baseGrant:Grant.__delitem__',
    'metaknowledge.grants.baseGrant:Grant.__init__',
    'metaknowledge.grants.baseGrant:Grant.__setitem__',
    'metaknowledge.grants.baseGrant:Grant.getInstitutions',
    'metaknowledge.grants.baseGrant:Grant.getInvestigators',
    'metaknowledge.grants.baseGrant:Grant.update',
    'metaknowledge.grants.baseGrant:csvAndLinesReader',
    'metaknowledge.grants.baseGrant:isFallbackGrantFile',
    'metaknowledge.grants.baseGrant:parserFallbackGrantFile',
    'metaknowledge.grants.cihrGrant:CIHRGrant.__init__',
    'metaknowledge.grants.cihrGrant:isCIHRfile',
    'metaknowledge.grants.cihrGrant:parserCIHRfile',
    'metaknowledge.grants.medlineGrant:MedlineGrant.__init__',
    'metaknowledge.grants.nsercGrant:NSERCGrant.__init__',
    'metaknowledge.grants.nsercGrant:NSERCGrant.getInstitutions',
    'metaknowledge.grants.nsercGrant:NSERCGrant.getInvestigators',
    'metaknowledge.grants.nsercGrant:NSERCGrant.update',
    'metaknowledge.grants.nsercGrant:isNSERCfile',
    'metaknowledge.grants.nsercGrant:parserNSERCfile',
    'metaknowledge.grants.nsfGrant:NSFGrant.__init__',
    'metaknowledge.grants.nsfGrant:NSFGrant.getInstitutions',
    'metaknowledge.grants.nsfGrant:NSFGrant.getInvestigators',
    'metaknowledge.grants.nsfGrant:isNSFfile',
    'metaknowledge.grants.nsfGrant:parserNSFfile',
    'metaknowledge.grants.scopusGrant:ScopusGrant.__init__',
    'metaknowledge.graphHelpers:dropEdges',
    'metaknowledge.graphHelpers:dropNodesByCount',
    'metaknowledge.graphHelpers:dropNodesByDegree',
    'metaknowledge.graphHelpers:getDegreeDistribution',
    'metaknowledge.graphHelpers:getNodeDegrees',
    'metaknowledge.graphHelpers:getWeight',
    'metaknowledge.graphHelpers:graphStats',
    'metaknowledge.graphHelpers:mergeGraphs',
    'metaknowledge.graphHelpers:readGraph',
    'metaknowledge.graphHelpers:writeEdgeList',
    'metaknowledge.graphHelpers:writeGraph',
    'metaknowledge.graphHelpers:writeNodeAttributeFile',
    'metaknowledge.graphHelpers:writeTnetFile',
    'metaknowledge.journalAbbreviations.backend:_getCurrentj9Dict',
    'metaknowledge.journalAbbreviations.backend:_getDict',
    'metaknowledge.journalAbbreviations.backend:_j9SaveCurrent',
    'metaknowledge.journalAbbreviations.backend:addToDB',
    'metaknowledge.journalAbbreviations.backend:excludeFromDB',
    'metaknowledge.journalAbbreviations.backend:getj9dict',
    'metaknowledge.journalAbbreviations.backend:j9urlGenerator',
    'metaknowledge.journalAbbreviations.backend:updatej9DB',
    'metaknowledge.medline.medlineHandlers:isMedlineFile',
    'metaknowledge.medline.medlineHandlers:medlineParser',
    'metaknowledge.medline.recordMedline:MedlineRecord.__init__',
    'metaknowledge.medline.recordMedline:MedlineRecord.encoding',
    'metaknowledge.medline.recordMedline:MedlineRecord.getAltName',
    'metaknowledge.medline.recordMedline:MedlineRecord.specialFuncs',
    'metaknowledge.medline.recordMedline:MedlineRecord.tagProcessingFunc',
    'metaknowledge.medline.recordMedline:MedlineRecord.writeRecord',
    'metaknowledge.medline.recordMedline:medlineRecordParser',
    'metaknowledge.medline.tagProcessing.specialFunctions:DOI',
    'metaknowledge.medline.tagProcessing.specialFunctions:address',
    'metaknowledge.medline.tagProcessing.specialFunctions:beginningPage',
    'metaknowledge.medline.tagProcessing.specialFunctions:month',
    'metaknowledge.medline.tagProcessing.specialFunctions:volume',
    'metaknowledge.medline.tagProcessing.specialFunctions:year',
    'metaknowledge.medline.tagProcessing.tagFunctions:AB',
    'metaknowledge.medline.tagProcessing.tagFunctions:AD',
    'metaknowledge.medline.tagProcessing.tagFunctions:AID',
    'metaknowledge.medline.tagProcessing.tagFunctions:AU',
    'metaknowledge.medline.tagProcessing.tagFunctions:AUID',
    'metaknowledge.medline.tagProcessing.tagFunctions:BTI',
    'metaknowledge.medline.tagProcessing.tagFunctions:CI',
    'metaknowledge.medline.tagProcessing.tagFunctions:CIN',
    'metaknowledge.medline.tagProcessing.tagFunctions:CN',
    'metaknowledge.medline.tagProcessing.tagFunctions:CRDT',
    'metaknowledge.medline.tagProcessing.tagFunctions:CRF',
    'metaknowledge.medline.tagProcessing.tagFunctions:CRI',
    'metaknowledge.medline.tagProcessing.tagFunctions:CTI',
    'metaknowledge.medline.tagProcessing.tagFunctions:DA',
    'metaknowledge.medline.tagProcessing.tagFunctions:DCOM',
    'metaknowledge.medline.tagProcessing.tagFunctions:DDIN',
    'metaknowledge.medline.tagProcessing.tagFunctions:DEP',
    'metaknowledge.medline.tagProcessing.tagFunctions:DP',
    'metaknowledge.medline.tagProcessing.tagFunctions:DRIN',
    'metaknowledge.medline.tagProcessing.tagFunctions:EDAT',
    'metaknowledge.medline.tagProcessing.tagFunctions:EFR',
    'metaknowledge.medline.tagProcessing.tagFunctions:EIN',
    'metaknowledge.medline.tagProcessing.tagFunctions:EN',
    'metaknowledge.medline.tagProcessing.tagFunctions:FAU',
    'metaknowledge.medline.tagProcessing.tagFunctions:FED',
    'metaknowledge.medline.tagProcessing.tagFunctions:FIR',
    'metaknowledge.medline.tagProcessing.tagFunctions:FPS',
    'metaknowledge.medline.tagProcessing.tagFunctions:GN',
    'metaknowledge.medline.tagProcessing.tagFunctions:GR',
    'metaknowledge.medline.tagProcessing.tagFunctions:GS',
    'metaknowledge.medline.tagProcessing.tagFunctions:IP',
    'metaknowledge.medline.tagProcessing.tagFunctions:IR',
    'metaknowledge.medline.tagProcessing.tagFunctions:IRAD',
    'metaknowledge.medline.tagProcessing.tagFunctions:IS',
    'metaknowledge.medline.tagProcessing.tagFunctions:ISBN',
    'metaknowledge.medline.tagProcessing.tagFunctions:JID',
    'metaknowledge.medline.tagProcessing.tagFunctions:JT',
    'metaknowledge.medline.tagProcessing.tagFunctions:LA',
    'metaknowledge.medline.tagProcessing.tagFunctions:LID',
    'metaknowledge.medline.tagProcessing.tagFunctions:LR',
    'metaknowledge.medline.tagProcessing.tagFunctions:MH',
    'metaknowledge.medline.tagProcessing.tagFunctions:MHDA',
    'metaknowledge.medline.tagProcessing.tagFunctions:MID',
    'metaknowledge.medline.tagProcessing.tagFunctions:NM',
    'metaknowledge.medline.tagProcessing.tagFunctions:OABL',
    'metaknowledge.medline.tagProcessing.tagFunctions:OCI',
    'metaknowledge.medline.tagProcessing.tagFunctions:OID',
    'metaknowledge.medline.tagProcessing.tagFunctions:ORI',
    'metaknowledge.medline.tagProcessing.tagFunctions:OT',
    'metaknowledge.medline.tagProcessing.tagFunctions:OTO',
    'metaknowledge.medline.tagProcessing.tagFunctions:OWN',
    'metaknowledge.medline.tagProcessing.tagFunctions:PG',
    'metaknowledge.medline.tagProcessing.tagFunctions:PHST',
    'metaknowledge.medline.tagProcessing.tagFunctions:PL',
    'metaknowledge.medline.tagProcessing.tagFunctions:PMC',
    'metaknowledge.medline.tagProcessing.tagFunctions:PMCR',
    'metaknowledge.medline.tagProcessing.tagFunctions:PMID',
    'metaknowledge.medline.tagProcessing.tagFunctions:PRIN',
    'metaknowledge.medline.tagProcessing.tagFunctions:PROF',
    'metaknowledge.medline.tagProcessing.tagFunctions:PS',
    'metaknowledge.medline.tagProcessing.tagFunctions:PST',
    'metaknowledge.medline.tagProcessing.tagFunctions:PT',
    'metaknowledge.medline.tagProcessing.tagFunctions:PUBM',
    'metaknowledge.medline.tagProcessing.tagFunctions:RF',
    'metaknowledge.medline.tagProcessing.tagFunctions:RIN',
    'metaknowledge.medline.tagProcessing.tagFunctions:RN',
    'metaknowledge.medline.tagProcessing.tagFunctions:ROF',
    'metaknowledge.medline.tagProcessing.tagFunctions:RPF',
    'metaknowledge.medline.tagProcessing.tagFunctions:RPI',
    'metaknowledge.medline.tagProcessing.tagFunctions:SB',
    'metaknowledge.medline.tagProcessing.tagFunctions:SFM',
    'metaknowledge.medline.tagProcessing.tagFunctions:SI',
    'metaknowledge.medline.tagProcessing.tagFunctions:SO',
    'metaknowledge.medline.tagProcessing.tagFunctions:SPIN',
    'metaknowledge.medline.tagProcessing.tagFunctions:STAT',
    'metaknowledge.medline.tagProcessing.tagFunctions:TA',
    'metaknowledge.medline.tagProcessing.tagFunctions:TI',
    'metaknowledge.medline.tagProcessing.tagFunctions:TT',
    'metaknowledge.medline.tagProcessing.tagFunctions:UIN',
    'metaknowledge.medline.tagProcessing.tagFunctions:UOF',
    'metaknowledge.medline.tagProcessing.tagFunctions:VI',
    'metaknowledge.medline.tagProcessing.tagFunctions:VTI',
    'metaknowledge.mkCollection:Collection.__and__',
    'metaknowledge.mkCollection:Collection.__contains__',
    'metaknowledge.mkCollection:Collection.__eq__',
    'metaknowledge.mkCollection:Collection.__ge__',
    'metaknowledge.mkCollection:Collection.__hash__',
    'metaknowledge.mkCollection:Collection.__iand__',
    'metaknowledge.mkCollection:Collection.__init__',
    'metaknowledge.mkCollection:Collection.__ior__',
    'metaknowledge.mkCollection:Collection.__isub__',
    'metaknowledge.mkCollection:Collection.__iter__',
    'metaknowledge.mkCollection:Collection.__ixor__',
    'metaknowledge.mkCollection:Collection.__le__',
    'metaknowledge.mkCollection:Collection.__len__',
    'metaknowledge.mkCollection:Collection.__or__',
    'metaknowledge.mkCollection:Collection.__repr__',
    'metaknowledge.mkCollection:Collection.__str__',
    'metaknowledge.mkCollection:Collection.__sub__',
    'metaknowledge.mkCollection:Collection.__xor__',
    'metaknowledge.mkCollection:Collection._createCache',
    'metaknowledge.mkCollection:Collection._loadFromCache',
    'metaknowledge.mkCollection:Collection.add',
    'metaknowledge.mkCollection:Collection.chunk',
    'metaknowledge.mkCollection:Collection.clear',
    'metaknowledge.mkCollection:Collection.copy',
    'metaknowledge.mkCollection:Collection.discard',
    'metaknowledge.mkCollection:Collection.peek',
    'metaknowledge.mkCollection:Collection.pop',
    'metaknowledge.mkCollection:Collection.remove',
    'metaknowledge.mkCollection:Collection.split',
    'metaknowledge.mkCollection:CollectionWithIDs.__init__',
    'metaknowledge.mkCollection:CollectionWithIDs.badEntries',
    'metaknowledge.mkCollection:CollectionWithIDs.containsID',
    'metaknowledge.mkCollection:CollectionWithIDs.cooccurrenceCounts',
    'metaknowledge.mkCollection:CollectionWithIDs.discardID',
    'metaknowledge.mkCollection:CollectionWithIDs.dropBadEntries',
    'metaknowledge.mkCollection:CollectionWithIDs.getID',
    'metaknowledge.mkCollection:CollectionWithIDs.glimpse',
    'metaknowledge.mkCollection:CollectionWithIDs.networkMultiLevel',
    'metaknowledge.mkCollection:CollectionWithIDs.networkMultiMode',
    'metaknowledge.mkCollection:CollectionWithIDs.networkOneMode',
    'metaknowledge.mkCollection:CollectionWithIDs.networkTwoMode',
    'metaknowledge.mkCollection:CollectionWithIDs.rankedSeries',
    'metaknowledge.mkCollection:CollectionWithIDs.removeID',
    'metaknowledge.mkCollection:CollectionWithIDs.tags',
    'metaknowledge.mkCollection:CollectionWithIDs.timeSeries',
    'metaknowledge.mkRecord:ExtendedRecord.__contains__',
    'metaknowledge.mkRecord:ExtendedRecord.__getitem__',
    'metaknowledge.mkRecord:ExtendedRecord.__getstate__',
    'metaknowledge.mkRecord:ExtendedRecord.__init__',
    'metaknowledge.mkRecord:ExtendedRecord.authGenders',
    'metaknowledge.mkRecord:ExtendedRecord.authors',
    'metaknowledge.mkRecord:ExtendedRecord.bibString',
    'metaknowledge.mkRecord:ExtendedRecord.createCitation',
    'metaknowledge.mkRecord:ExtendedRecord.encoding',
    'metaknowledge.mkRecord:ExtendedRecord.get',
    'metaknowledge.mkRecord:ExtendedRecord.getAltName',
    'metaknowledge.mkRecord:ExtendedRecord.getCitations',
    'metaknowledge.mkRecord:ExtendedRecord.items',
    'metaknowledge.mkRecord:ExtendedRecord.specialFuncs',
    'metaknowledge.mkRecord:ExtendedRecord.subDict',
    'metaknowledge.mkRecord:ExtendedRecord.tagProcessingFunc',
    'metaknowledge.mkRecord:ExtendedRecord.title',
    'metaknowledge.mkRecord:ExtendedRecord.values',
    'metaknowledge.mkRecord:ExtendedRecord.writeRecord',
    'metaknowledge.mkRecord:Record.__bytes__',
    'metaknowledge.mkRecord:Record.__contains__',
    'metaknowledge.mkRecord:Record.__eq__',
    'metaknowledge.mkRecord:Record.__getitem__',
    'metaknowledge.mkRecord:Record.__getstate__',
    'metaknowledge.mkRecord:Record.__hash__',
    'metaknowledge.mkRecord:Record.__init__',
    'metaknowledge.mkRecord:Record.__iter__',
    'metaknowledge.mkRecord:Record.__len__',
    'metaknowledge.mkRecord:Record.__repr__',
    'metaknowledge.mkRecord:Record.__setstate__',
    'metaknowledge.mkRecord:Record.__str__',
    'metaknowledge.mkRecord:Record.copy',
    'metaknowledge.mkRecord:Record.id',
    'metaknowledge.mkRecord:Record.sourceFile',
    'metaknowledge.mkRecord:Record.sourceLine',
    'metaknowledge.mkRecord:_bibFormatter',
    'metaknowledge.mkRecord:_pandasPrep',
    'metaknowledge.progressBar:_ProgressBar.__bool__',
    'metaknowledge.progressBar:_ProgressBar.__del__',
    'metaknowledge.progressBar:_ProgressBar.__enter__',
    'metaknowledge.progressBar:_ProgressBar.__exit__',
    'metaknowledge.progressBar:_ProgressBar.__init__',
    'metaknowledge.progressBar:_ProgressBar.finish',
    'metaknowledge.progressBar:_ProgressBar.jumpUp',
    'metaknowledge.progressBar:_ProgressBar.prepString',
    'metaknowledge.progressBar:_ProgressBar.prepTime',
    'metaknowledge.progressBar:_ProgressBar.threadedUpdate',
    'metaknowledge.progressBar:_ProgressBar.updateVal',
    'metaknowledge.proquest.proQuestHandlers:isProQuestFile',
    'metaknowledge.proquest.proQuestHandlers:proQuestParser',
    'metaknowledge.proquest.recordProQuest:ProQuestRecord.__init__',
    'metaknowledge.proquest.recordProQuest:ProQuestRecord.encoding',
    'metaknowledge.proquest.recordProQuest:ProQuestRecord.getAltName',
    'metaknowledge.proquest.recordProQuest:ProQuestRecord.specialFuncs',
    'metaknowledge.proquest.recordProQuest:ProQuestRecord.tagProcessingFunc',
    'metaknowledge.proquest.recordProQuest:ProQuestRecord.writeRecord',
    'metaknowledge.proquest.recordProQuest:proQuestRecordParser',
    'metaknowledge.proquest.tagProcessing.tagFunctions:proQuestClassification',
    'metaknowledge.proquest.tagProcessing.tagFunctions:proQuestIdentifier_Keyword',
    'metaknowledge.proquest.tagProcessing.tagFunctions:proQuestSubject',
    'metaknowledge.proquest.tagProcessing.tagFunctions:proQuestTagToFunc',
    'metaknowledge.recordCollection:RecordCollection.__add__',
    'metaknowledge.recordCollection:RecordCollection.__bytes__',
    'metaknowledge.recordCollection:RecordCollection.__init__',
    'metaknowledge.recordCollection:RecordCollection._extractTagged',
    'metaknowledge.recordCollection:RecordCollection.citeFilter',
    'metaknowledge.recordCollection:RecordCollection.dropNonJournals',
    'metaknowledge.recordCollection:RecordCollection.findProbableCopyright',
    'metaknowledge.recordCollection:RecordCollection.forBurst',
    'metaknowledge.recordCollection:RecordCollection.forNLP',
    'metaknowledge.recordCollection:RecordCollection.genderStats',
    'metaknowledge.recordCollection:RecordCollection.getCitations',
    'metaknowledge.recordCollection:RecordCollection.localCiteStats',
    'metaknowledge.recordCollection:RecordCollection.localCitesOf',
    'metaknowledge.recordCollection:RecordCollection.makeDict',
    'metaknowledge.recordCollection:RecordCollection.networkBibCoupling',
    'metaknowledge.recordCollection:RecordCollection.networkCitation',
    'metaknowledge.recordCollection:RecordCollection.networkCoAuthor',
    'metaknowledge.recordCollection:RecordCollection.networkCoCitation',
    'metaknowledge.recordCollection:RecordCollection.rpys',
    'metaknowledge.recordCollection:RecordCollection.writeBib',
    'metaknowledge.recordCollection:RecordCollection.writeCSV',
    'metaknowledge.recordCollection:RecordCollection.writeFile',
    'metaknowledge.recordCollection:RecordCollection.yearSplit',
    'metaknowledge.recordCollection:addToNetwork',
    'metaknowledge.recordCollection:expandRecs',
    'metaknowledge.recordCollection:filterCites',
    'metaknowledge.recordCollection:findCopyright',
    'metaknowledge.recordCollection:makeID',
    'metaknowledge.recordCollection:makeNodeTuple',
    'metaknowledge.scopus.recordScopus:ScopusRecord.__init__',
    'metaknowledge.scopus.recordScopus:ScopusRecord.createCitation',
    'metaknowledge.scopus.recordScopus:ScopusRecord.encoding',
    'metaknowledge.scopus.recordScopus:ScopusRecord.getAltName',
    'metaknowledge.scopus.recordScopus:ScopusRecord.specialFuncs',
    'metaknowledge.scopus.recordScopus:ScopusRecord.tagProcessingFunc',
    'metaknowledge.scopus.recordScopus:ScopusRecord.writeRecord',
    'metaknowledge.scopus.recordScopus:scopusRecordParser',
    'metaknowledge.scopus.scopusHandlers:isScopusFile',
    'metaknowledge.scopus.scopusHandlers:scopusParser',
    'metaknowledge.scopus.tagProcessing.tagFunctions:citeValue',
    'metaknowledge.scopus.tagProcessing.tagFunctions:commaSpaceSeperated',
    'metaknowledge.scopus.tagProcessing.tagFunctions:grantValue',
    'metaknowledge.scopus.tagProcessing.tagFunctions:integralValue',
    'metaknowledge.scopus.tagProcessing.tagFunctions:semicolonSeperated',
    'metaknowledge.scopus.tagProcessing.tagFunctions:semicolonSpaceSeperated',
    'metaknowledge.scopus.tagProcessing.tagFunctions:stringValue',
    'metaknowledge:downloadExtras',
}
