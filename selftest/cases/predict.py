L='lgensemble.go'; X='xgensemble.go'; XL='xgblinear.go'; E='leaves.go'
LOOP='''	for i := 0; i < nEstimators; i++ {
		for k := 0; k < e.nRawOutputGroups; k++ {
			pred, _ := e.Trees[i*e.nRawOutputGroups+k].predict(fvals)
			predictions[startIndex+k] += pred * coef
		}
	}
'''
XLOOP='''	for k := 0; k < e.nRawOutputGroups; k++ {
		predictions[startIndex+k] = e.BaseScore
	}

	for i := 0; i < nEstimators; i++ {
		for k := 0; k < e.nRawOutputGroups; k++ {
			ID := i*e.nRawOutputGroups + k
			pred, _ := e.Trees[ID].predict(fvals)
			predictions[startIndex+k] += pred * e.WeightDrop[ID]
		}
	}
'''
XLIN='''		predictions[startIndex+k] = e.BaseScore + float64(e.Weights[e.nRawOutputGroups*e.NumFeature+k])
		for i := 0; i < e.NumFeature; i++ {
			predictions[startIndex+k] += fvals[i] * float64(e.Weights[e.nRawOutputGroups*i+k])
		}
'''
LEAF='''	nResults := e.nRawOutputGroups * nEstimators
	for k := 0; k < nResults; k++ {
		predictions[startIndex+k] = 0.0
	}

	for i := 0; i < nEstimators; i++ {
		for k := 0; k < e.nRawOutputGroups; k++ {
			_, idx := e.Trees[i*e.nRawOutputGroups+k].predict(fvals)
			// note that we save leaf idx as float64 for type consistency over different types of results
			predictions[startIndex+k*nEstimators+i] = float64(idx)
		}
	}
'''
cases=[
# --- refactorings
dict(name='ok-lg-kouter-scalar', ok=True, edits=[(L,'''	for k := 0; k < e.nRawOutputGroups; k++ {
		predictions[startIndex+k] = 0.0
	}

''',''),(L,LOOP,'''	for k := 0; k < e.nRawOutputGroups; k++ {
		sum := 0.0
		for i := 0; i < nEstimators; i++ {
			pred, _ := e.Trees[i*e.nRawOutputGroups+k].predict(fvals)
			sum += pred * coef
		}
		predictions[startIndex+k] = sum
	}
''')]),
dict(name='ok-lg-kouter-mem', ok=True, edits=[(L,LOOP,'''	for k := 0; k < e.nRawOutputGroups; k++ {
		for i := 0; i < nEstimators; i++ {
			pred, _ := e.Trees[i*e.nRawOutputGroups+k].predict(fvals)
			predictions[startIndex+k] += pred * coef
		}
	}
''')]),
dict(name='ok-lg-flat', ok=True, edits=[(L,LOOP,'''	for t := 0; t < nEstimators*e.nRawOutputGroups; t++ {
		pred, _ := e.Trees[t].predict(fvals)
		predictions[startIndex+t%e.nRawOutputGroups] += pred * coef
	}
''')]),
dict(name='ok-lg-local-slice', ok=True, edits=[(L,LOOP,'''	out := predictions[startIndex : startIndex+e.nRawOutputGroups]
	for i := 0; i < nEstimators; i++ {
		trees := e.Trees[i*e.nRawOutputGroups : (i+1)*e.nRawOutputGroups]
		for k := range trees {
			pred, _ := trees[k].predict(fvals)
			out[k] += pred * coef
		}
	}
''')]),
dict(name='ok-lg-avg-branch', ok=True, edits=[(L,LOOP,'''	if e.averageOutput {
		for i := 0; i < nEstimators; i++ {
			for k := 0; k < e.nRawOutputGroups; k++ {
				pred, _ := e.Trees[i*e.nRawOutputGroups+k].predict(fvals)
				predictions[startIndex+k] += pred * coef
			}
		}
		return
	}
	for i := 0; i < nEstimators; i++ {
		for k := 0; k < e.nRawOutputGroups; k++ {
			pred, _ := e.Trees[i*e.nRawOutputGroups+k].predict(fvals)
			predictions[startIndex+k] += pred
		}
	}
''')]),
dict(name='ok-lg-helper', ok=True, edits=[(L,LOOP,'''	for i := 0; i < nEstimators; i++ {
		e.addEstimator(fvals, i, coef, predictions[startIndex:])
	}
'''),(L,'func (e *lgEnsemble) resetFVals','''func (e *lgEnsemble) addEstimator(fvals []float64, i int, coef float64, out []float64) {
	base := i * e.nRawOutputGroups
	for k := 0; k < e.nRawOutputGroups; k++ {
		pred, _ := e.Trees[base+k].predict(fvals)
		out[k] += coef * pred
	}
}

func (e *lgEnsemble) resetFVals''')]),
dict(name='ok-lg-while', ok=True, edits=[(L,LOOP,'''	i := 0
	for i < nEstimators {
		k := 0
		for {
			if k >= e.nRawOutputGroups {
				break
			}
			tree := &e.Trees[i*e.nRawOutputGroups+k]
			pred, _ := tree.predict(fvals)
			predictions[startIndex+k] = predictions[startIndex+k] + pred*coef
			k++
		}
		i++
	}
''')]),
dict(name='ok-lg-id-counter', ok=True, edits=[(L,LOOP,'''	id := 0
	for i := 0; i < nEstimators; i++ {
		for k := 0; k < e.nRawOutputGroups; k++ {
			pred, _ := e.Trees[id].predict(fvals)
			predictions[startIndex+k] += pred * coef
			id++
		}
	}
''')]),
dict(name='ok-lg-range-trees', ok=True, edits=[(L,LOOP,'''	for t, tree := range e.Trees[:nEstimators*e.nRawOutputGroups] {
		pred, _ := tree.predict(fvals)
		predictions[startIndex+t%e.nRawOutputGroups] += pred * coef
	}
''')]),
dict(name='ok-xg-init-merged', ok=True, edits=[(X,XLOOP,'''	for k := 0; k < e.nRawOutputGroups; k++ {
		score := e.BaseScore
		for i := 0; i < nEstimators; i++ {
			ID := i*e.nRawOutputGroups + k
			pred, _ := e.Trees[ID].predict(fvals)
			score += pred * e.WeightDrop[ID]
		}
		predictions[startIndex+k] = score
	}
''')]),
dict(name='ok-xg-range-out', ok=True, edits=[(X,XLOOP,'''	out := predictions[startIndex:][:e.nRawOutputGroups]
	for k := range out {
		out[k] = e.BaseScore
	}
	for i := 0; i < nEstimators; i++ {
		first := i * len(out)
		for k := range out {
			pred, _ := e.Trees[first+k].predict(fvals)
			out[k] += pred * e.WeightDrop[first+k]
		}
	}
''')]),
dict(name='ok-xlin-scalar', ok=True, edits=[(XL,XLIN,'''		score := e.BaseScore + float64(e.Weights[e.nRawOutputGroups*e.NumFeature+k])
		for i := 0; i < e.NumFeature; i++ {
			score += fvals[i] * float64(e.Weights[e.nRawOutputGroups*i+k])
		}
		predictions[startIndex+k] = score
''')]),
dict(name='ok-xlin-range', ok=True, edits=[(XL,XLIN,'''		sum := e.BaseScore + float64(e.Weights[e.nRawOutputGroups*e.NumFeature+k])
		for i, v := range fvals[:e.NumFeature] {
			w := e.Weights[e.nRawOutputGroups*i+k]
			sum += v * float64(w)
		}
		predictions[startIndex+k] = sum
''')]),
dict(name='ok-leaf-nozero', ok=True, edits=[(L,LEAF,'''	for k := 0; k < e.nRawOutputGroups; k++ {
		row := predictions[startIndex+k*nEstimators:]
		for i := 0; i < nEstimators; i++ {
			tree := &e.Trees[i*e.nRawOutputGroups+k]
			_, leaf := tree.predict(fvals)
			row[i] = float64(leaf)
		}
	}
''')]),
# --- bugs
dict(name='lg-coef-on-E', bug=['C07'], edits=[(L,'coef = 1.0 / float64(nEstimators)','coef = 1.0 / float64(e.NEstimators())')]),
dict(name='lg-avg-inverted', bug=['C07'], edits=[(L,'if e.averageOutput {\n\t\tcoef','if !e.averageOutput {\n\t\tcoef')]),
dict(name='lg-no-init', bug=['C07'], edits=[(L,'''		predictions[startIndex+k] = 0.0
	}

	coef''','''		_ = k
	}

	coef''')]),
dict(name='lg-init-skip-group0', bug=['C07'], edits=[(L,'''	for k := 0; k < e.nRawOutputGroups; k++ {
		predictions[startIndex+k] = 0.0''','''	for k := 1; k < e.nRawOutputGroups; k++ {
		predictions[startIndex+k] = 0.0''')]),
dict(name='lg-tree-layout', bug=['C07'], edits=[(L,'pred, _ := e.Trees[i*e.nRawOutputGroups+k]','pred, _ := e.Trees[k*e.NEstimators()+i]')]),
dict(name='lg-layout-n', bug=['C07'], edits=[(L,'pred, _ := e.Trees[i*e.nRawOutputGroups+k]','pred, _ := e.Trees[i*nEstimators/nEstimators+k]')]),
dict(name='lg-last-tree-missing', bug=['C06'], edits=[(L,'''	for i := 0; i < nEstimators; i++ {
		for k := 0; k < e.nRawOutputGroups; k++ {
			pred''','''	for i := 0; i < nEstimators && i < 1000; i++ {
		for k := 0; k < e.nRawOutputGroups; k++ {
			pred''')]),
dict(name='lg-early-break', bug=['C07'], edits=[(L,'predictions[startIndex+k] += pred * coef','''if pred != pred {
				break
			}
			predictions[startIndex+k] += pred * coef''')]),
dict(name='lg-skip-zero', bug=['C07'], edits=[(L,'predictions[startIndex+k] += pred * coef','''if k > 0 && pred < 0 {
				continue
			}
			predictions[startIndex+k] += pred * coef''')]),
dict(name='xg-weight-k', bug=['C07'], edits=[(X,'e.WeightDrop[ID]','e.WeightDrop[i]')]),
dict(name='xg-base-once', bug=['C07'], edits=[(X,'predictions[startIndex+k] = e.BaseScore','predictions[startIndex+k] = e.BaseScore / float64(e.nRawOutputGroups)')]),
dict(name='xg-stale', bug=['C07'], edits=[(X,'''		for k := 0; k < e.nRawOutputGroups; k++ {
			ID := i''','''		for k := 0; k < e.nRawOutputGroups; k++ {
			if i == 500 {
				predictions[startIndex+k] = e.BaseScore
			}
			ID := i''')]),
dict(name='xlin-stride', bug=['C07'], edits=[(XL,'e.Weights[e.nRawOutputGroups*i+k]','e.Weights[e.NumFeature*k+i]')]),
dict(name='xlin-bias', bug=['C07'], edits=[(XL,'e.Weights[e.nRawOutputGroups*e.NumFeature+k]','e.Weights[e.nRawOutputGroups*e.NumFeature]')]),
dict(name='xlin-f', bug=['C07'], edits=[(XL,'i < e.NumFeature','i < e.NumFeature-1')]),
dict(name='ok-leaf-layout-E', ok=True, edits=[(L,'predictions[startIndex+k*nEstimators+i]','predictions[startIndex+k*e.NEstimators()+i]')]),
dict(name='leaf-layout-T', bug=['C08'], edits=[(X,'predictions[startIndex+k*nEstimators+i]','predictions[startIndex+i*e.nRawOutputGroups+k]')]),
dict(name='leaf-zero-after', bug=['C08'], edits=[(L,'''			predictions[startIndex+k*nEstimators+i] = float64(idx)
''','''			predictions[startIndex+k*nEstimators+i] = float64(idx)
			predictions[startIndex] = 0.0
''')]),
dict(name='leaf-value', bug=['C08'], edits=[(X,'_, idx := e.Trees[i*e.nRawOutputGroups+k].predict(fvals)','idx, _ := e.Trees[i*e.nRawOutputGroups+k].predict(fvals)')]),
dict(name='adj-neg', bug=['C06'], edits=[(L,'if nEstimators > 0 {','if nEstimators >= 0 {')]),
dict(name='adj-max', bug=['C06'], edits=[(X,'''		nEstimators = util.MinInt(nEstimators, e.NEstimators())
''','''		nEstimators = util.MinInt(nEstimators, len(e.Trees))
''')]),
dict(name='adj-G', bug=['C06'], edits=[(X,'''		nEstimators = e.NEstimators()
	}
	return''','''		nEstimators = e.NEstimators() - 1
	}
	return''')]),
]
