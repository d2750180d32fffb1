L='lgensemble.go'; X='xgensemble.go'; XL='xgblinear.go'; E='leaves.go'
FILL='''			if cols[j] < len(fvals) {
				fvals[cols[j]] = vals[j]
			}
'''
POST='''		e.predictInnerAndTransform(fvals, nEstimators, predictions, i*e.NOutputGroups())
		e.resetFVals(fvals)
'''
cases=[
dict(name='ok-csr-reset-first', ok=True, edits=[(E,'''		start := indptr[i]
		end :=''','''		e.resetFVals(fvals)
		start := indptr[i]
		end :='''),(E,POST,'''		e.predictInnerAndTransform(fvals, nEstimators, predictions, i*e.NOutputGroups())
''')]),
dict(name='ok-csr-range', ok=True, edits=[(E,'''		for j := start; j < end; j++ {
			if cols[j] < len(fvals) {
				fvals[cols[j]] = vals[j]
			}
		}
''','''		rowVals := vals[start:end]
		for p, col := range cols[start:end] {
			if col >= len(fvals) {
				continue
			}
			fvals[col] = rowVals[p]
		}
''')]),
dict(name='ok-csr-lg-clear', ok=True, edits=[(L,'''	for j := 0; j < len(fvals); j++ {
		fvals[j] = 0.0
	}''','''	for j := range fvals {
		fvals[j] = 0
	}'''),(X,'''	for j := 0; j < len(fvals); j++ {
		fvals[j] = math.NaN()
	}''','''	missing := math.NaN()
	for j := len(fvals) - 1; j >= 0; j-- {
		fvals[j] = missing
	}''')]),
dict(name='ok-args-helper', ok=True, edits=[(E,'''	nRows := 1
	if len(predictions) < e.NOutputGroups()*nRows {
		return fmt.Errorf("predictions slice too short (should be at least %d)", e.NOutputGroups()*nRows)
	}
''','''	if err := e.checkPredictions(predictions, 1); err != nil {
		return err
	}
'''),(E,'''	nRows := len(indptr) - 1
	if len(predictions) < e.NOutputGroups()*nRows {
		return fmt.Errorf("predictions slice too short (should be at least %d)", e.NOutputGroups()*nRows)
	}
''','''	nRows := len(indptr) - 1
	if err := e.checkPredictions(predictions, nRows); err != nil {
		return err
	}
'''),(E,'''// PredictSingle calculates''','''func (e *Ensemble) checkPredictions(predictions []float64, nRows int) error {
	need := e.NOutputGroups() * nRows
	if need <= len(predictions) {
		return nil
	}
	return fmt.Errorf("predictions slice too short (should be at least %d)", need)
}

// PredictSingle calculates''')]),
dict(name='ok-single-reorder', ok=True, edits=[(E,'''	if e.NOutputGroups() != 1 {
		return 0.0
	}
	if e.NFeatures() > len(fvals) {
		return 0.0
	}
	nEstimators = e.adjustNEstimators(nEstimators)
	err := e.checkNEstimators(nEstimators)
	if err != nil {
		return 0.0
	}
	ret''','''	nEstimators = e.adjustNEstimators(nEstimators)
	if len(fvals) < e.NFeatures() || e.NOutputGroups() != 1 || e.checkNEstimators(nEstimators) != nil {
		return 0.0
	}
	ret''')]),
dict(name='csr-nan-lg', bug=['C04'], edits=[(L,'fvals[j] = 0.0','fvals[j] = -1')]),
dict(name='csr-zero-xg', bug=['C04'], edits=[(X,'fvals[j] = math.NaN()','fvals[j] = 0'),(X,'import (\n	"math"\n','import (')]),
dict(name='csr-reset-partial', bug=['C04'], edits=[(X,'j := 0; j < len(fvals)','j := 1; j < len(fvals)')]),
dict(name='csr-reset-skip', bug=['C04'], edits=[(E,'''		e.resetFVals(fvals)
	}
}''','''		if end-start > 1 {
			e.resetFVals(fvals)
		}
	}
}''')]),
dict(name='csr-no-initial', bug=['C04'], edits=[(E,'''			fvals := make([]float64, e.NFeatures())
			e.resetFVals(fvals)
			for startIndex''','''			fvals := make([]float64, e.NFeatures())
			for startIndex''')]),
dict(name='csr-skip-zero', bug=['C04'], edits=[(E,FILL,'''			if cols[j] < len(fvals) && vals[j] != 0 {
				fvals[cols[j]] = vals[j]
			}
''')]),
dict(name='csr-break', bug=['C04'], edits=[(E,FILL,'''			if cols[j] >= len(fvals) {
				break
			}
			fvals[cols[j]] = vals[j]
''')]),
dict(name='csr-noguard', bug=['C04'], edits=[(E,FILL,'''			fvals[cols[j]] = vals[j]
''')]),
dict(name='csr-guard-off', bug=['C04'], edits=[(E,'if cols[j] < len(fvals) {','if cols[j] < len(fvals)-1 {')]),
dict(name='args-leq', bug=['C05'], edits=[(E,'e.NFeatures() > len(fvals) {\n		return fmt','e.NFeatures() > len(fvals)+1 {\n		return fmt')]),
dict(name='args-G', bug=['C05'], edits=[(E,'''	nRows := len(indptr) - 1
	if len(predictions) < e.NOutputGroups()*nRows {''','''	nRows := len(indptr) - 1
	if len(predictions) < e.NRawOutputGroups()*nRows {''')]),
dict(name='args-over', bug=['C05'], edits=[(E,'ncols == 0 || e.NFeatures() > ncols','ncols == 0 || e.NFeatures() != ncols')]),
dict(name='args-order', bug=['C05'], edits=[(E,'''	if e.NFeatures() > len(fvals) {
		return fmt''','''	if len(predictions) > 0 {
		predictions[0] = 0
	}
	if e.NFeatures() > len(fvals) {
		return fmt''')]),
dict(name='args-single-multi', bug=['C05'], edits=[(E,'e.NOutputGroups() != 1 {','e.NOutputGroups() == 0 {')]),
dict(name='args-leaf-n', bug=['C05','C06'], edits=[(E,'nEstimators != e.NEstimators() {','nEstimators > e.NEstimators() {')]),
dict(name='args-leaf-serial', bug=['C05'], edits=[(E,'''	nEstimators = e.adjustNEstimators(nEstimators)
	err := e.checkNEstimators(nEstimators)
	if err != nil {
		return err
	}

	if nRows <= BatchSize || nThreads == 0 || nThreads == 1 {
		// single thread calculations
		for''','''	err := e.checkNEstimators(nEstimators)
	if err != nil {
		return err
	}
	nEstimators = e.adjustNEstimators(nEstimators)

	if nRows <= BatchSize || nThreads == 0 || nThreads == 1 {
		// single thread calculations
		for''')]),
]
